package main

func init() {
	reg("C20", group{name: "codec"})
	core := group{name: "core"}
	reg("C01 C02 C03 C04 C05 C06 C07 C08 C09 C10", core)
	reg("C18 C19 C21", group{name: "marshal", seq: true})
	reg("C13 C14 C15 C16 C17 C22 C23 C24", group{name: "net"})
	reg("C11 C12", group{name: "wire", seq: true})
}
