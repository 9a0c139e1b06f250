package wire

import "time"

const h30 = 30 * time.Second
