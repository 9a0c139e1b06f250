// protoc-gen-go-grpc is a stand-in for the gRPC code generator of the same name, which this sandbox cannot
// fetch. It generates the client and server glue for unary methods.
package main

import (
	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/types/pluginpb"
)

func main() {
	protogen.Options{}.Run(func(p *protogen.Plugin) error {
		p.SupportedFeatures = uint64(pluginpb.CodeGeneratorResponse_FEATURE_PROTO3_OPTIONAL)
		for _, f := range p.Files {
			if f.Generate && len(f.Services) > 0 {
				gen(p, f)
			}
		}
		return nil
	})
}

const (
	ctxP  = protogen.GoImportPath("context")
	grpcP = protogen.GoImportPath("google.golang.org/grpc")
	codeP = protogen.GoImportPath("google.golang.org/grpc/codes")
	statP = protogen.GoImportPath("google.golang.org/grpc/status")
)

func gen(p *protogen.Plugin, f *protogen.File) {
	g := p.NewGeneratedFile(f.GeneratedFilenamePrefix+"_grpc.pb.go", f.GoImportPath)
	id := func(ip protogen.GoImportPath, n string) string { return g.QualifiedGoIdent(ip.Ident(n)) }
	g.P("package ", f.GoPackageName)
	for _, s := range f.Services {
		n := s.GoName
		ctx, cc, opt := id(ctxP, "Context"), id(grpcP, "ClientConnInterface"), id(grpcP, "CallOption")
		g.P("type ", n, "Client interface {")
		for _, m := range s.Methods {
			g.P(m.GoName, "(ctx ", ctx, ", in *", m.Input.GoIdent, ", opts ...", opt, ") (*", m.Output.GoIdent, ", error)")
		}
		g.P("}")
		lc := "client_" + n
		g.P("type ", lc, " struct { cc ", cc, " }")
		g.P("func New", n, "Client(cc ", cc, ") ", n, "Client { return &", lc, "{cc} }")
		for _, m := range s.Methods {
			g.P("func (c *", lc, ") ", m.GoName, "(ctx ", ctx, ", in *", m.Input.GoIdent, ", opts ...", opt, ") (*", m.Output.GoIdent, ", error) {")
			g.P("out := new(", m.Output.GoIdent, ")")
			g.P("if err := c.cc.Invoke(ctx, \"/", s.Desc.FullName(), "/", m.Desc.Name(), "\", in, out, opts...); err != nil { return nil, err }")
			g.P("return out, nil")
			g.P("}")
		}
		g.P("type ", n, "Server interface {")
		for _, m := range s.Methods {
			g.P(m.GoName, "(", ctx, ", *", m.Input.GoIdent, ") (*", m.Output.GoIdent, ", error)")
		}
		g.P("mustEmbedUnimplemented", n, "Server()")
		g.P("}")
		g.P("type Unimplemented", n, "Server struct{}")
		for _, m := range s.Methods {
			g.P("func (Unimplemented", n, "Server) ", m.GoName, "(", ctx, ", *", m.Input.GoIdent, ") (*", m.Output.GoIdent, ", error) {")
			g.P("return nil, ", id(statP, "Errorf"), "(", id(codeP, "Unimplemented"), ", \"method ", m.GoName, " not implemented\")")
			g.P("}")
		}
		g.P("func (Unimplemented", n, "Server) mustEmbedUnimplemented", n, "Server() {}")
		g.P("func Register", n, "Server(s ", id(grpcP, "ServiceRegistrar"), ", srv ", n, "Server) { s.RegisterService(&", n, "_ServiceDesc, srv) }")
		for _, m := range s.Methods {
			g.P("func _", n, "_", m.GoName, "_Handler(srv interface{}, ctx ", ctx, ", dec func(interface{}) error, interceptor ", id(grpcP, "UnaryServerInterceptor"), ") (interface{}, error) {")
			g.P("in := new(", m.Input.GoIdent, ")")
			g.P("if err := dec(in); err != nil { return nil, err }")
			g.P("if interceptor == nil { return srv.(", n, "Server).", m.GoName, "(ctx, in) }")
			g.P("info := &", id(grpcP, "UnaryServerInfo"), "{Server: srv, FullMethod: \"/", s.Desc.FullName(), "/", m.Desc.Name(), "\"}")
			g.P("return interceptor(ctx, in, info, func(ctx ", ctx, ", req interface{}) (interface{}, error) { return srv.(", n, "Server).", m.GoName, "(ctx, req.(*", m.Input.GoIdent, ")) })")
			g.P("}")
		}
		g.P("var ", n, "_ServiceDesc = ", id(grpcP, "ServiceDesc"), "{")
		g.P("ServiceName: \"", s.Desc.FullName(), "\",")
		g.P("HandlerType: (*", n, "Server)(nil),")
		g.P("Methods: []", id(grpcP, "MethodDesc"), "{")
		for _, m := range s.Methods {
			g.P("{MethodName: \"", m.Desc.Name(), "\", Handler: _", n, "_", m.GoName, "_Handler},")
		}
		g.P("},")
		g.P("Metadata: \"", f.Desc.Path(), "\",")
		g.P("}")
	}
}
