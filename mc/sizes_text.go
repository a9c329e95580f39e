package main

// Large texts for the parser (G06, G27).

import (
	"fmt"
	"strings"
)

// bigTexts grows every element of the notation in turn, without a fault, and with one behind or in it.
func bigTexts(c *Ctx, yield func(desc func() string, text func() string)) {
	rep := strings.Repeat
	type grow struct {
		name string
		f    func(n int) string
		max  int // quick, ten times that thorough
	}
	rows := func(n int, row func(i int) string) string {
		var b strings.Builder
		b.WriteString("[T]\na b\nint string\n")
		for i := 0; i < n; i++ {
			b.WriteString(row(i))
			b.WriteByte('\n')
		}
		return b.String()
	}
	list := func(n int, f func(i int) string) string {
		var s []string
		for i := 0; i < n; i++ {
			s = append(s, f(i))
		}
		return strings.Join(s, " ")
	}
	gs := []grow{
		{"comment line first", func(n int) string { return "#" + rep("x", n) + "\n[T]\na int = 1\n" }, 70000},
		{"comment behind the name", func(n int) string { return "[T] # " + rep("x", n) + "\na int = 1\n" }, 5000},
		{"comment behind a row", func(n int) string { return "[T]\na b\nint string\n1 \"x\" #" + rep("\" ", n) + "\n2 \"y\"\n" }, 70000},
		{"comment lines", func(n int) string { return "[T]\na b\nint string\n" + rep("# c\n", n) + "1 \"x\"\n" }, 5000},
		{"blank lines first", func(n int) string { return rep("\n", n) + "[T]\na b\nint string\n1 \"x\"\n" }, 5000},
		{"blank lines before the next table", func(n int) string { return "[T]\na b\nint string\n1 \"x\"\n" + rep("\n", n+1) + "[U]\na int = 1\n" }, 5000},
		{"blank lines last", func(n int) string { return "[T]\na b\nint string\n1 \"x\"" + rep("\n", n) }, 5000},
		{"lines of one blank", func(n int) string { return "[T]\na b\nint string\n1 \"x\"\n" + rep(" \n", n) }, 5000},
		{"CR LF", func(n int) string {
			return strings.Replace(rows(n, func(i int) string { return fmt.Sprintf("%d \"x\"", i) }), "\n", "\r\n", -1)
		}, 1100},
		{"blanks before a row", func(n int) string { return "[T]\na b\nint string\n" + rep(" ", n) + "1 \"x\"\n" }, 70000},
		{"blanks between cells", func(n int) string { return "[T]\na b\nint string\n1 " + rep(" ", n) + "\"x\"\n2 \"y\"\n" }, 70000},
		{"tabs between headings", func(n int) string { return "[T]\na\t" + rep("\t", n) + "b\nint string\n1 \"x\"\n" }, 5000},
		{"blanks between types", func(n int) string { return "[T]\na b\nint " + rep(" ", n) + "string\n1 \"x\"\n" }, 5000},
		{"blanks behind a row", func(n int) string { return "[T]\na b\nint string\n1 \"x\"" + rep(" ", n) + "\n2 \"y\"\n" }, 70000},
		{"blanks before a name", func(n int) string { return rep(" ", n) + "[T]\na int = 1\n" }, 5000},
		{"blanks round =", func(n int) string { return "[T]\na int " + rep(" ", n) + "=" + rep(" ", n) + " 1\n" }, 5000},
		{"table name", func(n int) string { return "[" + rep("T", n+1) + "]\na int = 1\n" }, 70000},
		{"set name", func(n int) string { return "[[" + rep("S", n+1) + "]]\n[T]\na int = 1\n" }, 5000},
		{"column name", func(n int) string { return "[T]\nb" + rep("a", n) + " c\nint string\n1 \"x\"\n" }, 70000},
		{"struct column name", func(n int) string { return "[T]\nb" + rep("a", n) + " int = 1\n" }, 5000},
		{"columns", func(n int) string {
			return "[T]\n" + list(n, func(i int) string { return fmt.Sprintf("c%d", i) }) + "\n" + list(n, func(i int) string { return "int" }) + "\n" + list(n, func(i int) string { return fmt.Sprint(i) }) + "\n"
		}, 1100},
		{"columns of two types, a row too short", func(n int) string {
			return "[T]\n" + list(n+2, func(i int) string { return fmt.Sprintf("c%d", i) }) + "\n" + list(n+2, func(i int) string { return []string{"int", "string"}[i%2] }) + "\n" + list(n+1, func(i int) string { return []string{"5", "\"q\""}[i%2] }) + "\n"
		}, 1100},
		{"struct columns", func(n int) string {
			var b strings.Builder
			for i := 0; i < n; i++ {
				fmt.Fprintf(&b, "c%d int = %d\n", i, i)
			}
			return "[T]\n" + b.String()
		}, 1100},
		{"rows", func(n int) string { return rows(n, func(i int) string { return fmt.Sprintf("%d \"s%d\"", i, i) }) }, 1100},
		{"rows, one too many cells in the last", func(n int) string {
			return rows(n+1, func(i int) string {
				if i == n {
					return "1 \"x\" 5"
				}
				return "1 \"x\""
			})
		}, 5000},
		{"rows, a fault in the middle", func(n int) string {
			return rows(n+1, func(i int) string {
				if i == n/2 {
					return "1 x"
				}
				return "1 \"x\" # c"
			})
		}, 5000},
		{"tables", func(n int) string {
			var b strings.Builder
			for i := 0; i < n; i++ {
				fmt.Fprintf(&b, "[T%d]\na int = %d\n\n", i, i)
			}
			return b.String()
		}, 1100},
		{"tables, the first again at the end", func(n int) string {
			var b strings.Builder
			for i := 0; i < n+1; i++ {
				fmt.Fprintf(&b, "[T%d]\na int = %d\n\n", i, i)
			}
			return b.String() + "[T0]\n"
		}, 1100},
		{"string", func(n int) string { return "[T]\na b\nint string\n1 \"" + rep("s", n) + "\"\n2 \"y\"\n" }, 70000},
		{"string without end", func(n int) string { return "[T]\na b\nint string\n1 \"" + rep("s", n) + "\n2 \"y\"\n" }, 5000},
		{"raw string", func(n int) string { return "[T]\na b\nint string\n1 `" + rep("\\\"", n) + "`\n2 `y`\n" }, 5000},
		{"escapes", func(n int) string { return "[T]\na b\nint string\n1 \"" + rep("\\n\\u00e9", n) + "\"\n2 \"y\"\n" }, 5000},
		{"bytes", func(n int) string {
			return "[T]\na b\n[]byte string\n[" + list(n, func(i int) string { return fmt.Sprint(i % 256) }) + "] \"x\"\n[] \"y\"\n"
		}, 5000},
		{"bytes, the last too large", func(n int) string {
			return "[T]\na b\n[]byte string\n[" + list(n, func(i int) string { return fmt.Sprint(i % 256) }) + " 256] \"x\"\n[] \"y\"\n"
		}, 1100},
		{"leading zeros", func(n int) string { return "[T]\na float64 = " + rep("0", n) + "1.5\n" }, 1100},
		{"digits", func(n int) string { return "[T]\na int64 = 1" + rep("0", n) + "\n" }, 1100},
		{"negative digits", func(n int) string { return "[T]\na int = -" + rep("9", n+1) + "\n" }, 1100},
		{"float digits", func(n int) string { return "[T]\na float64 = 1" + rep("0", n) + "\n" }, 1100},
		{"float32 places", func(n int) string { return "[T]\na float32 = 0." + rep("0", n) + "1\n" }, 1100},
		{"float64 places", func(n int) string { return "[T]\na b\nfloat64 string\n1." + rep("3", n) + " \"x\"\n" }, 1100},
		{"exponent", func(n int) string { return fmt.Sprintf("[T]\na float64 = 1e-%d\n", n) }, 1100},
		{"exponent digits", func(n int) string { return "[T]\na float64 = 1e" + rep("0", n) + "1\n" }, 1100},
		{"places of seconds", func(n int) string { return "[T]\na time.Time = 2020-01-02T03:04:05." + rep("1", n+1) + "Z\n" }, 300},
		{"an unknown type", func(n int) string { return "[T]\na b\nint i" + rep("n", n) + "t\n1 2\n" }, 1100},
		{"no line end", func(n int) string { return rep("x", n+1) }, 70000},
		{"brackets", func(n int) string { return rep("[", n+1) }, 5000},
		{"closing brackets", func(n int) string { return "[T" + rep("]", n+1) + "\na int = 1\n" }, 1100},
	}
	for _, gr := range gs {
		gr := gr
		max := gr.max
		if c.Thorough {
			max *= 10
		}
		for _, n := range sizeLadder(c.pick(70, 300), max) {
			n := n
			for tail := 0; tail < 3; tail++ {
				tail := tail
				if tail > 0 && n > 5000 && n%8 != 0 {
					continue
				}
				yield(func() string { return fmt.Sprintf("large: %s, size %d, tail %d", gr.name, n, tail) }, func() string {
					return gr.f(n) + []string{"", "# end", "\n\n[Last]\na b\nint int\n1 2\n3 x 5\n"}[tail]
				})
			}
			if c.Stopped() {
				return
			}
		}
	}
}
