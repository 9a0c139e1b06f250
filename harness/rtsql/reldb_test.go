package rtsql

import (
	"context"
	"database/sql"
	"errors"
	"fmt"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/sqlitereldb"
	"pgregory.net/rapid"
	"verif/harness/h"
)

type row struct {
	Id  int64
	Val string
}

func dump(db backend.RelationalDB, table string, how int) ([]row, error) {
	q := "SELECT id, val FROM " + table + " ORDER BY id, val"
	var out []row
	scan := func(rows *sql.Rows) error {
		defer rows.Close()
		for rows.Next() {
			var r row
			if err := rows.Scan(&r.Id, &r.Val); err != nil {
				return err
			}
			out = append(out, r)
		}
		return rows.Err()
	}
	switch how {
	case 0:
		err := db.Select(bg, &out, q)
		return out, err
	case 1:
		rows, err := db.Query(bg, q)
		if err != nil {
			return nil, err
		}
		return out, scan(rows)
	case 2:
		st, err := db.Prepare(bg, q)
		if err != nil {
			return nil, err
		}
		defer st.Close()
		rows, err := st.Query()
		if err != nil {
			return nil, err
		}
		return out, scan(rows)
	default: // row by row through Get
		var n int
		if err := db.Get(bg, &n, "SELECT COUNT(*) FROM "+table); err != nil {
			return nil, err
		}
		for i := 0; i < n; i++ {
			var r row
			if err := db.Get(bg, &r, q+" LIMIT 1 OFFSET ?", i); err != nil {
				return nil, err
			}
			out = append(out, r)
		}
		return out, nil
	}
}

func TestC35_History(t *testing.T) {
	h.Check(t, h.Opts{Quick: 2500, Thorough: 6000, Hang: 60 * time.Second, Rule: "a history of create/drop/insert/update/delete/select over 1-4 database instances using same-named tables, through Exec, prepared statements and every query method, some with cancelled contexts, compared with a map per instance; non-trivial = two instances hold rows in a table of the same name"}, func(t *rapid.T, c *h.Case) {
		type inst struct {
			db     *sqlitereldb.SqliteRelDB
			tables map[string]map[int64]string
		}
		var dbs []*inst
		open := func() {
			db, err := sqlitereldb.NewSqliteRelDB(bg)
			if err != nil {
				c.Failf("NewSqliteRelDB: %v", err)
			}
			dbs = append(dbs, &inst{db, map[string]map[int64]string{}})
		}
		for i := rapid.IntRange(1, 3).Draw(t, "ndb"); i > 0; i-- {
			open()
			for _, tb := range []string{"t", "u"} {
				if rapid.IntRange(0, 2).Draw(t, "create") > 0 {
					c.Logf("db%d: create %s", len(dbs)-1, tb)
					if _, err := dbs[len(dbs)-1].db.Exec(bg, "CREATE TABLE "+tb+" (id INTEGER PRIMARY KEY, val TEXT)"); err != nil {
						c.Failf("create table %s in a new database: %v", tb, err)
					}
					dbs[len(dbs)-1].tables[tb] = map[int64]string{}
				}
			}
		}
		check := func(i int, tb string, how int) {
			want, has := dbs[i].tables[tb]
			got, err := dump(dbs[i].db, tb, how)
			if !has {
				if err == nil {
					c.Failf("db%d: select from %s, which was not created there, returned %v", i, tb, got)
				}
				return
			}
			if err != nil {
				c.Failf("db%d: select from %s: %v", i, tb, err)
			}
			var w []row
			for k, v := range want {
				w = append(w, row{k, v})
			}
			sort.Slice(w, func(a, b int) bool { return w[a].Id < w[b].Id })
			if fmt.Sprint(w) != fmt.Sprint(got) {
				c.Failf("db%d.%s holds %v, expected %v (method %d)", i, tb, got, w, how)
			}
		}
		for s := rapid.IntRange(3, 30).Draw(t, "steps"); s > 0; s-- {
			i := rapid.IntRange(0, len(dbs)-1).Draw(t, "db")
			d := dbs[i]
			tb := rapid.SampledFrom([]string{"t", "u"}).Draw(t, "table")
			ctx, dead := bg, false
			if rapid.IntRange(0, 11).Draw(t, "dead") == 0 {
				ctx, dead = cancelled(), true
			}
			id := int64(rapid.IntRange(0, 5).Draw(t, "id"))
			val := rapid.SampledFrom([]string{"a", "", "it's", "日本", "b;--"}).Draw(t, "val")
			exec := func(q string, args ...any) (int64, error) {
				c.Logf("db%d: %s %v dead=%v", i, q, args, dead)
				var res sql.Result
				var err error
				if rapid.Bool().Draw(t, "prepared") && !dead {
					st, perr := d.db.Prepare(ctx, q)
					if perr != nil {
						return 0, perr
					}
					defer st.Close()
					res, err = st.Exec(args...)
				} else {
					res, err = d.db.Exec(ctx, q, args...)
				}
				if err != nil {
					return 0, err
				}
				return res.RowsAffected()
			}
			fail := func(err error, want bool) bool {
				if dead {
					if err == nil {
						c.Failf("a statement with a cancelled context reported success")
					}
					return true
				}
				if (err != nil) != want {
					c.Failf("statement returned error %v, expected failure=%v", err, want)
				}
				return err != nil
			}
			tab, has := d.tables[tb]
			switch rapid.IntRange(0, 8).Draw(t, "op") {
			case 0:
				if len(dbs) < 4 {
					c.Logf("open db%d", len(dbs))
					open()
				}
			case 1:
				_, err := exec("DROP TABLE " + tb)
				if !fail(err, !has) {
					delete(d.tables, tb)
				}
			case 2:
				_, err := exec("CREATE TABLE " + tb + " (id INTEGER PRIMARY KEY, val TEXT)")
				if !fail(err, has) {
					d.tables[tb] = map[int64]string{}
				}
			case 3, 4:
				_, dup := tab[id]
				n, err := exec("INSERT INTO "+tb+" (id, val) VALUES (?, ?)", id, val)
				if !fail(err, !has || dup) {
					if n != 1 {
						c.Failf("insert affected %d rows", n)
					}
					tab[id] = val
				}
			case 5:
				n, err := exec("UPDATE "+tb+" SET val = ? WHERE id >= ?", val, id)
				if !fail(err, !has) {
					m := int64(0)
					for k := range tab {
						if k >= id {
							tab[k] = val
							m++
						}
					}
					if n != m {
						c.Failf("update affected %d rows, expected %d", n, m)
					}
				}
			case 6:
				n, err := exec("DELETE FROM "+tb+" WHERE id = ?", id)
				if !fail(err, !has) {
					_, was := tab[id]
					if was != (n == 1) {
						c.Failf("delete affected %d rows", n)
					}
					delete(tab, id)
				}
			case 7:
				c.Logf("db%d: select %s", i, tb)
				check(i, tb, rapid.IntRange(0, 3).Draw(t, "how"))
			case 8:
				var r row
				err := d.db.Get(ctx, &r, "SELECT id, val FROM "+tb+" WHERE id = ?", id)
				c.Logf("db%d: get %s %d -> %v %v", i, tb, id, r, err)
				want, present := tab[id]
				if dead {
					if err == nil {
						c.Failf("a query with a cancelled context reported success")
					}
				} else if !present {
					if err == nil || has && !errors.Is(err, sql.ErrNoRows) {
						c.Failf("get of an absent row returned %v %v", r, err)
					}
				} else if err != nil || r.Id != id || r.Val != want {
					c.Failf("get returned %v %v, expected %q", r, err, want)
				}
			}
			n := map[string]int{}
			for _, d := range dbs {
				for k, tab := range d.tables {
					if len(tab) > 0 {
						n[k]++
					}
				}
			}
			c.NonTrivial(n["t"] > 1 || n["u"] > 1)
		}
		for i := range dbs {
			for _, tb := range []string{"t", "u"} {
				check(i, tb, i%4)
			}
		}
	})
}

func TestC35_Concurrent(t *testing.T) {
	h.Check(t, h.Opts{Quick: 400, Thorough: 1500, Hang: 60 * time.Second, Rule: "2-6 goroutines insert and read back their own rows in one or two instances, retrying statements that report a lock; every reported insert must be present exactly once at the end and readable right after it; non-trivial = always (shared table)"}, func(t *rapid.T, c *h.Case) {
		ndb := rapid.IntRange(1, 2).Draw(t, "instances")
		ng := rapid.IntRange(2, 6).Draw(t, "goroutines")
		per := rapid.IntRange(3, 15).Draw(t, "rows")
		prepared := rapid.Bool().Draw(t, "prepared")
		c.Logf("%d instances, %d goroutines x %d rows prepared=%v", ndb, ng, per, prepared)
		c.NonTrivial(true)
		var dbs []*sqlitereldb.SqliteRelDB
		for i := 0; i < ndb; i++ {
			db, err := sqlitereldb.NewSqliteRelDB(bg)
			if err != nil {
				c.Failf("NewSqliteRelDB: %v", err)
			}
			db.Exec(bg, "DROP TABLE IF EXISTS t")
			if _, err := db.Exec(bg, "CREATE TABLE t (id INTEGER, val TEXT)"); err != nil {
				c.Failf("create table in instance %d: %v", i, err)
			}
			dbs = append(dbs, db)
		}
		retry := func(f func() error) error {
			for {
				err := f()
				if err == nil || !strings.Contains(err.Error(), "locked") && !strings.Contains(err.Error(), "busy") {
					return err
				}
				time.Sleep(100 * time.Microsecond)
			}
		}
		var wg sync.WaitGroup
		bad := make(chan string, 100)
		for g := 0; g < ng; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				db := dbs[g%ndb]
				for i := 0; i < per; i++ {
					id := g*1000 + i
					ctx, cancel := context.WithCancel(bg)
					err := retry(func() error {
						if prepared {
							st, err := db.Prepare(ctx, "INSERT INTO t (id, val) VALUES (?, ?)")
							if err != nil {
								return err
							}
							defer st.Close()
							_, err = st.Exec(id, "v")
							return err
						}
						_, err := db.Exec(ctx, "INSERT INTO t (id, val) VALUES (?, ?)", id, "v")
						return err
					})
					cancel()
					if err != nil {
						bad <- fmt.Sprintf("insert: %v", err)
						return
					}
					var n int
					if err := retry(func() error { return db.Get(bg, &n, "SELECT COUNT(*) FROM t WHERE id = ?", id) }); err != nil {
						bad <- fmt.Sprintf("select: %v", err)
						return
					}
					if n != 1 {
						bad <- fmt.Sprintf("row %d appears %d times right after its insert", id, n)
						return
					}
				}
			}()
		}
		wg.Wait()
		select {
		case s := <-bad:
			c.Failf("%s", s)
		default:
		}
		total := 0
		for _, db := range dbs {
			var n int
			if err := db.Get(bg, &n, "SELECT COUNT(*) FROM t"); err != nil {
				c.Failf("count: %v", err)
			}
			total += n
		}
		if total != ng*per {
			c.Failf("%d rows in all instances after %d inserts", total, ng*per)
		}
	})
}

var bg = context.Background()

func cancelled() context.Context {
	ctx, cancel := context.WithCancel(bg)
	cancel()
	return ctx
}
