# fourth round: from the custom mutants that an earlier version of the checks missed
seed("C03-root-slash", "C03", "a directory called / asked for on a DOS 3.3 disk",
 "asking for the directory / of a disk without directories lists the disk",
 [("cmd/catalog.go", "		if !op.HasSubdirs() {", '		if !op.HasSubdirs() && l.Directory != "/" {')],
 '''
func demo() {
	file("a.do", dosDisk())
	_, code := cli(nil, "ls", "a.do", "/")
	check(code != 0, "exit %d", code)
}
''')
seed("C11-far-line", "C11", "a program with lines more than 32 KiB from its start",
 "lines beyond the first 32 KiB are looked for at their beginning",
 [("basic/applesoft/applesoft.go", "		return address - int(location)", "		return (address - int(location)) % 0x8000")],
 '''
func demo() {
	var b []byte
	for len(b) < 40000 {
		n := 0x801 + len(b) + 106
		b = append(b, byte(n), byte(n>>8), 1, 0, 0xb2)
		b = append(b, bytes.Repeat([]byte{'x'}, 100)...)
		b = append(b, 0)
	}
	b = append(b, 0, 0)
	l, err := applesoft.Decode(b, 0x801)
	check(err == nil && len(l) == (len(b)-2)/106, "%d lines, %v", len(l), err)
}
''')
seed("C13-address-wrap", "C13", "an address of more than 16 bits",
 "addresses of more than 16 bits are accepted and cut off",
 [("main.go", "strconv.ParseUint(sv, 0, 16)", "strconv.ParseUint(sv, 0, 32)")],
 '''
func demo() {
	file("p", pattern(300, 1))
	_, code := cli(nil, "mksd", "o.dsk", "p", "--address", "0x12000")
	check(code != 0, "exit %d", code)
}
''')
seed("C17-rm-extension", "C17", "rm on a .dsk image in ProDOS order, found by looking at the disk",
 "the image is written back in the order of its extension, not in the order it was found in",
 [("cmd/delete.go", "	return disk.WriteBack(d.DiskImage, op, order, true)", '	if d.Order == "auto" {\n		order = disk.OrderFromFilename(d.DiskImage, order)\n	}\n	return disk.WriteBack(d.DiskImage, op, order, true)')],
 '''
func demo() {
	op := nop(naked())
	_, err := op.PutFile(types.FileInfo{Descriptor: types.Descriptor{Name: "DF50", Length: 2560, Type: types.FiletypeBinary}, Data: pattern(2560, 3)}, true)
	must(err)
	_, err = op.PutFile(types.FileInfo{Descriptor: types.Descriptor{Name: "DF51", Length: 2560, Type: types.FiletypeBinary}, Data: pattern(2560, 5)}, true)
	must(err)
	b := fileOrder(op.GetBytes(), "po")
	file("a.dsk", b)
	_, code := cli(nil, "rm", "-f", "a.dsk", "DF50")
	check(code == 0, "exit %d", code)
	out, code := cli(nil, "dump", "--order", "po", "a.dsk", "DF51")
	check(code == 0, "dump: exit %d", code)
	check(bytes.Equal([]byte(out), pattern(2560, 5)), "DF51 reads back otherwise")
}
''')
seed("C07-symtab-room", "C07", "a put into file number 4 on a disk with less room than file 3 has sectors",
 "the sectors of file 3 are counted as room for file 4, so a file that does not fit is cut off without an error",
 [("supermon/supermon.go", "	free := sm.FreeSectors() + existing\n", "	free := sm.FreeSectors() + existing\n	if file == 4 {\n		free = sm.FreeSectors() + len(sm.SectorsForFile(3))\n	}\n")],
 '''
func demo() {
	b := naked()
	op := nop(b)
	op.SM.Delete(4)
	must(op.SM.Persist(op.GetBytes()))
	n := op.SM.FreeSectors() + 3
	_, err := op.PutFile(types.FileInfo{Descriptor: types.Descriptor{Name: "DF04", Length: n * 256, Type: types.FiletypeBinary}, Data: pattern(n*256, 3)}, true)
	check(err != nil, "accepted %d sectors", n)
}
''')
seed("C15-mode-bits", "C15", "a new image made by mksd or reorder, used afterwards by its owner",
 "a new file is executable and cannot be written by its owner",
 [("helpers/helpers.go", "	return os.WriteFile(filename, contents, 0600)", "	return os.WriteFile(filename, contents, 0500)")],
 '''
func demo() {
	file("p", pattern(300, 1))
	_, code := cli(nil, "mksd", "o.dsk", "p")
	check(code == 0, "exit %d", code)
	fi, err := os.Stat(filepath.Join(tmp, "o.dsk"))
	must(err)
	check(fi.Mode().Perm()&0600 == 0600, "mode %v", fi.Mode())
}
''')
seed("C21-hex-name", "C21", "a two-character name that starts with a dollar sign",
 "texts that are the name of no type are accepted as one",
 [("types/filetype.go", 'func FiletypeForName(name string) (Filetype, error) {\n', 'func FiletypeForName(name string) (Filetype, error) {\n	if len(name) == 2 && name[0] == \'$\' {\n		return Filetype(name[1]), nil\n	}\n')],
 '''
func demo() {
	_, err := types.FiletypeForName("$6")
	check(err != nil, "accepted")
}
''')
seed("C05-many-directories", "C05", "a volume with more than 256 subdirectories, some of them nested",
 "nested directories are no longer followed once 256 have been found",
 [("prodos/prodos.go", "		sdds = append(sdds, sub.subdirDescriptors()...)\n", "		if len(sdds) < 256 {\n			sdds = append(sdds, sub.subdirDescriptors()...)\n		}\n")],
 '''
func demo() {
	b := prodosVol(2000)
	// S0 .. S269, each inside the one before
	psub(b, 20, "S0", 2, 1, 1)
	pentry(b, 2, 1, 0xd, "S0", 15, 20, 1, 512)
	// S0 holds nothing but its own 24 blocks of directories
	cur, slot, last := 20, 1, 20
	n := 0
	for k := 0; k < 300; k++ {
		if slot == 13 {
			next := last + 1
			last = next
			blk(b, cur)[2], blk(b, cur)[3] = byte(next), byte(next>>8)
			blk(b, next)[0], blk(b, next)[1] = byte(cur), byte(cur>>8)
			cur, slot = next, 0
		}
		key := 100 + 2*k
		pentry(b, cur, slot, 0xd, fmt.Sprintf("D%d", k), 15, key, 1, 512)
		psub(b, key, fmt.Sprintf("D%d", k), cur, slot+1, 1)
		// and one inside
		pentry(b, key, 1, 0xd, "IN", 15, key+1, 1, 512)
		psub(b, key+1, "IN", key, 2, 1)
		pentry(b, key+1, 1, 1, "F", 4, 1500, 1, 5)
		slot++
		n++
	}
	ds, err := proOp(b).Catalog(fmt.Sprintf("S0/D%d/IN", 299))
	check(err == nil && len(ds) == 1, "%v %v", ds, err)
}
''')
