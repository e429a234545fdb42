# third round
seed("C01-dsk-unknown", "C01", "a .dsk image and no other hint of the orders",
 "the extension .dsk no longer stands for DOS order",
 [("disk/open.go", '	case ".dsk", ".do":\n		return types.DiskOrderDO', '	case ".do":\n		return types.DiskOrderDO')],
 '''
func demo() {
	b := pattern(143360, 1)
	file("a.dsk", b)
	_, code := cli(nil, "reorder", "a.dsk", "b.img")
	check(code == 0, "exit %d", code)
	check(bytes.Equal(contents("b.img"), doToPo(b)), "wrong result")
}
''')
seed("C04-locked-binary", "C04", "a locked binary file",
 "the load address of a locked binary file is taken for its length",
 [("dos3/dos3.go", "		switch fd.Filetype & 0x7f {\n		case FiletypeApplesoft:\n			fi.StartAddress", "		switch fd.Filetype {\n		case FiletypeApplesoft:\n			fi.StartAddress")],
 '''
func demo() {
	b := dosDisk()
	entry(b, 17, 15, 0, 20, 15, 0x84, "F", 2)
	at(b, 20, 15)[12], at(b, 20, 15)[13] = 20, 14
	copy(at(b, 20, 14), []byte{20, 0, 10, 0, 7})
	fi, err := dosOp(b).GetFile("F")
	check(err == nil && len(fi.Data) == 10 && fi.Data[0] == 7 && fi.StartAddress == 20, "%v %v", fi, err)
}
''')
seed("C05-root-later-block", "C05", "a subdirectory recorded in a later block of the volume directory, its parent pointer naming that block",
 "the volume with such a subdirectory cannot be listed",
 [("prodos/prodos.go", "		v.firstSubdirBlocks[block] = keyBlock\n", "		v.firstSubdirBlocks[block] = v.keyBlock.Next\n")],
 '''
func demo() {
	b := prodosVol(280)
	blk(b, 2)[2], blk(b, 3)[0], blk(b, 3)[2], blk(b, 4)[0] = 3, 2, 4, 3
	pentry(b, 4, 3, 0xd, "B", 15, 20, 1, 512)
	psub(b, 20, "B", 4, 3, 1)
	pentry(b, 20, 1, 1, "F", 4, 30, 1, 5)
	ds, err := proOp(b).Catalog("B")
	check(err == nil && len(ds) == 1, "%v %v", ds, err)
}
''')
seed("C08-stale-name", "C08", "a symbol deleted and defined again, in the same session, at an address of hash class 0 that has other symbols",
 "the deleted entry keeps its name, and defining it again does not link it into its chain",
 [("supermon/supermon.go", '''			sym.Name = ""
			sym.Address = 0
''', '''			sym.Address = 0
''')],
 '''
func demo() {
	op := nop(naked())
	must(op.ST.AddSymbol("AAA", 0x0101))
	must(op.ST.AddSymbol("BBB", 0x1234))
	op.ST.DeleteSymbol("BBB")
	must(op.ST.AddSymbol("BBB", 0xDFDF))
	check(op.ST[0].Link == 1, "BBB is not linked: %v", op.ST[:3])
}
''')
seed("C08-codec-pair", "C08", "a name with one of the digits 5 to 9, on a disk from another tool or read by one",
 "the digits 5 to 9 are stored in reverse, and read back so",
 [("supermon/supermon.go", "			result += string(rune((value & 0x1f) - 0x1b + '5'))", "			result += string(rune('9' - ((value & 0x1f) - 0x1b)))"),
  ("supermon/supermon.go", "			value = value<<6 + 0x3b + uint64(ch-'5')", "			value = value<<6 + 0x3b + uint64('9'-ch)")],
 '''
func demo() {
	op := nop(naked())
	must(op.ST.AddSymbol("AB5", 0x1234))
	must(op.SM.WriteSymbolTable(op.GetBytes(), op.ST))
	b := op.GetBytes()
	var five []byte
	for i := 0; i < 560; i++ {
		if b[0x9d0+i] == 4 {
			five = b[i*256:][:5]
			break
		}
	}
	v := uint64(five[0]) | uint64(five[1])<<8 | uint64(five[2])<<16
	check(v == 1|2<<5|0x3b<<10, "AB5 is stored as %x", v)
}
''')
seed("C08-hash-mask", "C08", "two symbols whose hashes differ only in the highest of the seven bits",
 "symbols of two hash classes are linked into one chain",
 [("supermon/supermon.go", "	return (byte(addr) ^ byte(addr>>8)) & 0x7f", "	return (byte(addr) ^ byte(addr>>8)) & 0x3f")],
 '''
func demo() {
	op := nop(naked())
	must(op.ST.AddSymbol("AAA", 0x0001))
	must(op.ST.AddSymbol("BBB", 0x0041))
	check(op.ST[0].Link == -1, "linked: %v", op.ST[:3])
}
''')
seed("C09-sector-bound", "C09", "a track/sector list in sector 0 of track 35, one past the disk",
 "an address just past the end of the disk crashes diskii",
 [("disk/marshal.go", "	if len(diskbytes) < end {\n		return nil, fmt.Errorf(\"cannot read track", "	if len(diskbytes) < start {\n		return nil, fmt.Errorf(\"cannot read track")],
 '''
func demo() {
	b := dosDisk()
	entry(b, 17, 15, 0, 35, 0, 4, "F", 2)
	file("a.do", b)
	_, code := cli(nil, "dump", "a.do", "F")
	check(code == 1, "exit %d", code)
}
''')
seed("C11-odd-header", "C11", "a program with a length header and one stray byte after its end",
 "the header is taken for the link of the first line",
 [("basic/applesoft/applesoft.go", "		if size == len(raw)-2 || size == len(raw)-3 {", "		if size == len(raw)-2 {")],
 '''
func demo() {
	p := []byte{0x07, 0x08, 10, 0, 0x80, 0, 0, 0}
	p[0] = 0x07
	l, err := applesoft.Decode(append(append([]byte{8, 0}, p...), 0), 0x801)
	check(err == nil && len(l) == 1 && l[0].Num == 10, "%v %v", l, err)
}
''')
seed("C12-odd-header", "C12", "a program with a length header and one stray byte after its end",
 "the header is taken for the first line",
 [("basic/integer/integer.go", "		if size == len(raw)-2 || size == len(raw)-3 {", "		if size == len(raw)-2 {")],
 '''
func demo() {
	l, err := integer.Decode([]byte{5, 0, 5, 10, 0, 0x51, 1, 0})
	check(err == nil && len(l) == 1 && l[0].Num == 10, "%v %v", l, err)
}
''')
seed("C16-no-trunc", "C16", "writing over an existing file that is longer than the image",
 "the tail of the old file stays behind the new image",
 [("helpers/helpers.go", "	return os.WriteFile(filename, contents, 0600)\n", '''	f, err := os.OpenFile(filename, os.O_WRONLY|os.O_CREATE, 0600)
	if err != nil {
		return err
	}
	if _, err := f.Write(contents); err != nil {
		f.Close()
		return err
	}
	return f.Close()
''')],
 '''
func demo() {
	file("p.bin", pattern(100, 1))
	file("x.dsk", pattern(200000, 1))
	_, code := cli(nil, "mksd", "x.dsk", "p.bin")
	check(code == 0 && len(contents("x.dsk")) == 143360, "exit %d, %d bytes", code, len(contents("x.dsk")))
}
''')
seed("C17-reserved-b", "C17", "an image whose map reserves sectors 0 to A of track 0 but not B",
 "an image that is not a NakedOS disk is taken for one",
 [("supermon/supermon.go", "	for sector := byte(0); sector <= 0xB; sector++ {", "	for sector := byte(0); sector < 0xB; sector++ {")],
 '''
func demo() {
	b := naked()
	b[0x9d0+0xB] = 0xff
	_, _, err := open(fileOrder(b, types.DiskOrderDO), "a.do", "auto", "auto")
	check(err != nil, "opened")
}
''')
seed("C18-unused-desc", "C18", "a catalog entry that was never used but holds stale bytes",
 "the bytes of entries that are not in use are lost when the sector is serialised",
 [("dos3/dos3.go", "	buf := make([]byte, 35)\n", "	buf := make([]byte, 35)\n	if fd.Status() == FileDescStatusUnused {\n		return buf\n	}\n")],
 '''
func demo() {
	s := pattern(256, 3)
	s[11] = 0
	var cs dos3.CatalogSector
	must(cs.FromSector(s))
	out, err := cs.ToSector()
	must(err)
	check(bytes.Equal(out, s), "changed")
}
''')
seed("C19-marshal-last", "C19", "writing the last block of a device",
 "the last block cannot be written",
 [("disk/marshal.go", '	if len(diskbytes) < end {\n		return fmt.Errorf("device too small to write block %d", index)', '	if len(diskbytes) <= end {\n		return fmt.Errorf("device too small to write block %d", index)')],
 '''
func demo() {
	d := make([]byte, 5120)
	var b prodos.VolumeDirectoryBlock
	b.SetBlock(9)
	must(disk.MarshalBlock(d, &b))
}
''')
seed("C20-index-swap", "C20", "an index block from or for another tool",
 "the halves of an index block are exchanged, in reading and writing alike",
 [("prodos/prodos.go", "	return uint16(i[blockNum]) + uint16(i[256+int(blockNum)])<<8", "	return uint16(i[blockNum])<<8 + uint16(i[256+int(blockNum)])"),
  ("prodos/prodos.go", "	i[blockNum] = byte(block)\n	i[256+int(blockNum)] = byte(block >> 8)", "	i[blockNum] = byte(block >> 8)\n	i[256+int(blockNum)] = byte(block)")],
 '''
func demo() {
	var i prodos.IndexBlock
	i.Set(3, 0x1234)
	check(i[3] == 0x34 && i[259] == 0x12, "%x %x", i[3], i[259])
}
''')
seed("C20-bit-order", "C20", "a bitmap written for another tool",
 "bits are counted from the low end, in marking and asking alike",
 [("prodos/prodos.go", "	bit := byte(1 << (7 - (block & 7)))\n	if set {", "	bit := byte(1 << (block & 7))\n	if set {"),
  ("prodos/prodos.go", "	bit := byte(1 << (7 - (block & 7)))\n	return", "	bit := byte(1 << (block & 7))\n	return")],
 '''
func demo() {
	m := prodos.NewVolumeBitMap(0, 16)
	m.MarkUsed(0)
	d := make([]byte, 512)
	must(m.Write(d))
	check(d[0] == 0x7f, "%x", d[0])
}
''')
seed("C25-wide-number", "C25", "an address of more than 16 bits",
 "numbers above 65535 are accepted and cut to 16 bits",
 [("main.go", "	n, err := strconv.ParseUint(sv, 0, 16)", "	n, err := strconv.ParseUint(sv, 0, 32)")],
 '''
func demo() {
	file("p.bin", pattern(100, 1))
	_, code := cli(nil, "mksd", "--address", "0x16000", "x.dsk", "p.bin")
	check(code != 0, "exit %d", code)
}
''')
seed("C06-other-symbol", "C06", "a file with two symbols, then a put by the second",
 "a put by a name that is not the file's first symbol goes to a new file",
 [("supermon/supermon.go", '''			if symbol.Address > 0xDF00 && symbol.Address < 0xDFFE {
				return byte(symbol.Address - 0xDF00), nil
			}
			break
''', '''			if symbol.Address > 0xDF00 && symbol.Address < 0xDFFE && strings.EqualFold(NameForFile(byte(symbol.Address-0xDF00), st), filename) {
				return byte(symbol.Address - 0xDF00), nil
			}
			break
''')],
 '''
func demo() {
	op := nop(naked())
	_, err := put(op, "DF20:AAA", pattern(300, 1), false)
	must(err)
	must(op.ST.AddSymbol("BBB", 0xDF20))
	existed, err := put(op, "BBB", pattern(300, 2), true)
	check(err == nil && existed, "%v %v", existed, err)
}
''')
seed("C07-same-size", "C07", "overwriting a file with contents of as many sectors, after which another file is overwritten",
 "contents of the same size are written over the sectors counted from the file's first, which need not be adjacent",
 [("supermon/supermon.go", '''		if !overwrite {
			return existed, errors.FileExistsf("file %d already exists", file)
		}
		sm.Delete(file)
''', '''		if !overwrite {
			return existed, errors.FileExistsf("file %d already exists", file)
		}
		if existing == sectorsNeeded && existing > 1 {
			first := sm.SectorsForFile(file)[0]
			start := int(first.Track)*disk.FloppyTrackBytes + int(first.Sector)*256
			if start+len(cts) <= len(diskbytes) {
				copy(diskbytes[start:], cts)
				return existed, nil
			}
		}
		sm.Delete(file)
''')],
 '''
func demo() {
	op := nop(naked())
	for i := 5; i < 9; i++ {
		_, err := put(op, fmt.Sprintf("DF0%d", i), pattern(256, byte(i)), false)
		must(err)
	}
	_, err := op.Delete("DF05")
	must(err)
	_, err = op.Delete("DF07")
	must(err)
	_, err = put(op, "DF09", pattern(512, 9), false)
	must(err)
	_, err = put(op, "DF09", pattern(512, 10), true)
	must(err)
	fi, err := op.GetFile("DF06")
	check(err == nil && bytes.Equal(fi.Data, pattern(256, 6)), "DF06 changed")
}
''')
seed("C02-dos-blank", "C02", "an image with a track of which only the later half is used",
 "saving takes a track for empty when its first half is, and drops the rest",
 [("disk/open.go", '''	result := make([]byte, FloppyDiskBytes)
	for track := 0; track < FloppyTracks; track++ {
''', '''	result := make([]byte, FloppyDiskBytes)
	for track := 0; track < FloppyTracks; track++ {
		empty := track > 17
		for _, b := range diskimage[track*FloppyTrackBytes : track*FloppyTrackBytes+FloppyTrackBytes/2] {
			empty = empty && b == 0
		}
		if empty {
			continue
		}
''')],
 '''
func demo() {
	b := naked()
	copy(b[30*4096+12*256:], pattern(256, 1))
	b[0x9d0+30*16+12] = 9
	f := fileOrder(b, types.DiskOrderDO)
	op, order, err := open(append([]byte{}, f...), "a.do", "auto", "nakedos")
	must(err)
	must(disk.WriteBack(filepath.Join(tmp, "o.do"), op, order, true))
	check(bytes.Equal(contents("o.do"), f), "changed")
}
''')
seed("C03-many-sectors", "C03", "a catalog chain of more than fifteen sectors",
 "the catalog is read no further than fifteen sectors",
 [("dos3/dos3.go", "		css = append(css, cs)\n", "		css = append(css, cs)\n		if len(css) == 15 {\n			break\n		}\n")],
 '''
func demo() {
	b := dosDisk()
	t, s := 17, 15
	for i := 0; i < 16; i++ {
		n := [2]int{20, i}
		if i == 15 {
			entry(b, t, s, 0, 30, 1, 4, "LAST", 2)
			break
		}
		at(b, t, s)[1], at(b, t, s)[2] = byte(n[0]), byte(n[1])
		t, s = n[0], n[1]
	}
	check(strings.Join(names(dosOp(b), ""), ",") == "LAST", "lists %q", names(dosOp(b), ""))
}
''')
seed("C13-padding", "C13", "a program whose length is a whole number of pages",
 "a page of padding is loaded after a program of whole pages",
 [("cmd/sd.go", '''	for len(contents)%256 != 0 {
		contents = append(contents, 0)
	}
''', '''	contents = append(contents, make([]byte, 256-len(contents)%256)...)
''')],
 '''
func demo() {
	file("p.bin", pattern(512, 1))
	_, code := cli(nil, "mksd", "x.do", "p.bin")
	check(code == 0, "exit %d", code)
	b := contents("x.do")
	check(b[0x4f] == 0x60 && b[0x50] == 0x61 && b[0x51] == 0xc0, "loads pages %x", b[0x4f:0x52])
}
''')
seed("C14-through-name", "C14", "a file number given in lower case or without DF, on a disk where a symbol has that name too",
 "a symbol is preferred to a file number",
 [("supermon/supermon.go", '''		numFile = parseAddressFilename(filename)
		if numFile != 0 {
			return numFile, 0, "", nil
		}
		file, err := st.FileForName(filename)
''', '''		if a := st.ByName(filename); a > 0xDF00 && a < 0xDFFE {
			return byte(a), byte(a), filename, nil
		}
		numFile = parseAddressFilename(filename)
		if numFile != 0 {
			return numFile, 0, "", nil
		}
		file, err := st.FileForName(filename)
''')],
 '''
func demo() {
	op := nop(naked())
	must(op.ST.AddSymbol("DF20", 0xDF30))
	must(op.SM.WriteSymbolTable(op.GetBytes(), op.ST))
	file("a.do", fileOrder(op.GetBytes(), types.DiskOrderDO))
	_, code := cli(nil, "nakedos", "mkhello", "a.do", "DF20")
	check(code == 0, "exit %d", code)
	out, code := cli(nil, "dump", "a.do", "1")
	check(code == 0 && out[7] == 0x20, "loads %x", out)
}
''')
seed("C15-size-guard", "C15", "an existing target that is not the size of a disk, without -f",
 "only targets the size of the result are protected",
 [("helpers/helpers.go", "		if _, err := os.Stat(filename); !errors.Is(err, fs.ErrNotExist) {", "		if st, err := os.Stat(filename); !errors.Is(err, fs.ErrNotExist) && (err != nil || st.Size() == int64(len(contents))) {")],
 '''
func demo() {
	file("a.do", pattern(143360, 1))
	file("b.po", pattern(999, 2))
	_, code := cli(nil, "reorder", "a.do", "b.po")
	check(code != 0 && len(contents("b.po")) == 999, "exit %d, %d bytes", code, len(contents("b.po")))
}
''')
seed("C24-dash-target", "C24", "reorder from standard input to a named target that exists, with -f",
 "an image from standard input is written back to standard output although a target is named",
 [("cmd/reorder.go", '	if filename == "" {\n', '	if filename == "" || r.DiskImage == "-" {\n')],
 '''
func demo() {
	b := pattern(143360, 1)
	out, code := cli(b, "reorder", "-", "b.po")
	check(code == 0 && len(out) == 0, "exit %d, %d bytes", code, len(out))
	check(bytes.Equal(contents("b.po"), doToPo(b)), "wrong")
}
''')
