seed("C06-existed-byte", "C06", "a file of exactly 256 sectors that is overwritten without permission to overwrite",
 "the file is overwritten without permission, and reported as new",

 [("supermon/supermon.go", "	if existed {\n		if !overwrite {\n			return existed, errors.FileExistsf", "	if byte(existing) > 0 {\n		if !overwrite {\n			return existed, errors.FileExistsf")],
 '''
func demo() {
	op := nop(naked())
	_, err := put(op, "DF05", pattern(65536, 1), false)
	must(err)
	fi, err := op.GetFile("DF05")
	must(err)
	check(len(fi.Data) == 65536, "%d bytes", len(fi.Data))
	_, err = put(op, "DF05", pattern(100, 2), false)
	check(err != nil, "overwritten without permission")
}
''')
seed("C04-repeated-sector", "C04", "a file that names one data sector twice",
 "the second use of the sector is left out of the contents",
 [("dos3/dos3.go", "	data := make([]byte, 0, 256*122*len(tsls))\n", "	data := make([]byte, 0, 256*122*len(tsls))\n	used := map[disk.TrackSector]bool{}\n	add := func(ts disk.TrackSector, b []byte) {\n		if !used[ts] {\n			data = append(data, b...)\n		}\n		used[ts] = true\n	}\n"),
  ("dos3/dos3.go", "				data = append(data, contents...)\n", "				add(ts, contents)\n")],
 '''
func demo() {
	b := dosDisk()
	entry(b, 17, 15, 0, 20, 15, 0, "REPEAT", 3)
	l := at(b, 20, 15)
	l[12], l[13], l[14], l[15] = 20, 14, 20, 14
	copy(at(b, 20, 14), bytes.Repeat([]byte{0xc1}, 256))
	fi, err := dosOp(b).GetFile("REPEAT")
	must(err)
	check(len(fi.Data) == 512, "%d bytes", len(fi.Data))
}
''')
seed("C03-thirteen", "C03", "a VTOC that gives the disk 13 sectors, and a catalog that leads to sector 13",
 "a catalog sector outside the disk is listed",
 [("dos3/dos3.go", "		if nextSector >= v.NumSectors {", "		if nextSector >= 16 || nextSector > v.NumSectors {")],
 '''
func demo() {
	b := dosDisk()
	at(b, 17, 0)[0x35] = 13
	at(b, 17, 0)[2] = 12
	entry(b, 17, 12, 0, 20, 15, 0, "ONE", 3)
	check(len(names(dosOp(b), "")) == 1, "%v", names(dosOp(b), ""))
	at(b, 17, 12)[1], at(b, 17, 12)[2] = 17, 13
	entry(b, 17, 13, 0, 20, 14, 0, "TWO", 3)
	_, err := dosOp(b).Catalog("")
	check(err != nil, "a catalog that leaves the disk is listed")
}
''')
seed("C11-more-data", "C11", "an Applesoft program with other data behind it in the file",
 "the program is refused",
 [("basic/applesoft/applesoft.go", "		if next == 0 {\n			break\n		}\n", "		if next == 0 {\n			if len(raw)-ofs > 3 {\n				return nil, fmt.Errorf(\"program ends at $%X, before the end of the input\", location)\n			}\n			break\n		}\n")],
 '''
func demo() {
	p := []byte{7, 8, 10, 0, 0xb2, 'A', 0, 0, 0}
	for _, more := range [][]byte{nil, {1}, bytes.Repeat([]byte{0x55}, 40)} {
		l, err := applesoft.Decode(append(append([]byte{}, p...), more...), 0x801)
		check(err == nil && len(l) == 1, "%v %v", l, err)
	}
}
''')
seed("C25-link-name", "C25", "an image given by a symbolic link whose name has another extension than the file it leads to",
 "the order comes from the name of the file behind the link",
 [("disk/open.go", "	ext := strings.ToLower(path.Ext(filename))\n	size := len(filebytes)\n", "	if real, err := filepath.EvalSymlinks(filename); err == nil {\n		filename = real\n	}\n	ext := strings.ToLower(path.Ext(filename))\n	size := len(filebytes)\n")],
 '''
func demo() {
	do := repoDisk("dos33master.dsk")
	file("real.po", do)
	must(os.Symlink("real.po", filepath.Join(tmp, "a.do")))
	a, code := cli(nil, "ls", "a.do")
	check(code == 0, "exit %d", code)
	file("b.do", do)
	b, code := cli(nil, "ls", "b.do")
	check(code == 0 && bytes.Equal(a, b), "the listings differ")
}
''')
seed("C16-rm-force-error", "C16", "rm -f on a system that cannot delete files",
 "the failure is reported as success",
 [("cmd/delete.go", "	deleted, err := op.Delete(d.Filename)\n	if err != nil {", "	deleted, err := op.Delete(d.Filename)\n	if err != nil && !d.MissingOk {")],
 '''
func demo() {
	file("a.do", repoDisk("dos33master.dsk"))
	_, code := cli(nil, "rm", "a.do", "HELLO")
	check(code == 1, "exit %d", code)
	_, code = cli(nil, "rm", "-f", "a.do", "HELLO")
	check(code == 1, "exit %d with -f", code)
}
''')
