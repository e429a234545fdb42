seed("C07-last-number", "C07", "a NakedOS disk on which only file number FD is unused, and a put by a new name",
 "the put is refused although number and sectors are free",
 [("supermon/supermon.go", "	for file := byte(0x01); file < 0xfe; file++ {\n		sectors := sm.SectorsForFile(file)\n		if len(sectors) == 0", "	for file := byte(0x01); file < 0xfd; file++ {\n		sectors := sm.SectorsForFile(file)\n		if len(sectors) == 0")],
 '''
func demo() {
	op := nop(naked())
	for f := 1; f < 0xfe; f++ {
		_, err := put(op, fmt.Sprintf("DF%02X", f), pattern(100, byte(f)), false)
		_ = err // 3 and 4, and others of the disk, exist
	}
	_, err := op.Delete("DFFD")
	must(err)
	_, err = put(op, "NEWNAME", pattern(200, 7), false)
	must(err)
	fi, err := op.GetFile("NEWNAME")
	must(err)
	check(bytes.Equal(fi.Data[:200], pattern(200, 7)), "other contents")
}
''')
seed("C03-cat-cap", "C03", "a catalog of more than 255 sectors",
 "the entries beyond are not listed",
 [("dos3/dos3.go", "		css = append(css, cs)\n", "		if len(css) < 255 {\n			css = append(css, cs)\n		}\n")],
 '''
func demo() {
	b := dosDisk()
	t, s, n := 17, 15, 0
	for nt := 18; nt < 35; nt++ {
		for ns := 0; ns < 16; ns++ {
			at(b, t, s)[1], at(b, t, s)[2] = byte(nt), byte(ns)
			t, s = nt, ns
			n++
		}
	}
	check(n > 260, "%d", n)
	entry(b, t, s, 0, 1, 0, 0, "LAST", 3)
	check(len(names(dosOp(b), "")) == 1, "%v", names(dosOp(b), ""))
}
''')
seed("C01-order-low-byte", "C01", "a sector table whose first number is a sector plus a multiple of 256",
 "the table is accepted as if it were a permutation of the sectors",
 [("disk/open.go", "if mapping < 0 || mapping > 15 {", "if i > 0 && (mapping < 0 || mapping > 15) {")],
 '''
func demo() {
	o := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}
	_, err := disk.Swizzle(make([]byte, disk.FloppyDiskBytes), o)
	must(err)
	o[0] = 256
	_, err = disk.Swizzle(make([]byte, disk.FloppyDiskBytes), o)
	check(err != nil, "accepted %v", o)
}
''')
seed("C17-trailing-blank", "C17", "an image whose file name ends in a blank",
 "the extension is taken without the blank instead of being refused as unknown",
 [("disk/open.go", "	ext := strings.ToLower(path.Ext(filename))\n	size", "	ext := strings.ToLower(strings.TrimRight(path.Ext(filename), \" \\t\"))\n	size")],
 '''
func demo() {
	b := dosDisk()
	for _, n := range []string{"x.do", "x.po ", "x.do ", "x.po\\t"} {
		_, _, err := disk.OpenImage(b, n, "auto", "dos3", factories(), 0)
		check((err == nil) == (n == "x.do"), "%q: %v", n, err)
	}
}
''')
