# ---------------------------------------------------------------- C01
seed("C01-ext-case", "C01", "a file whose .po extension is written in capitals, no explicit orders",
 "reorder no longer recognises upper-case extensions when picking the direction",
 [("disk/open.go", '''	ext := strings.ToLower(path.Ext(filename))
	switch ext {
	case ".dsk", ".do":''', '''	ext := path.Ext(filename)
	switch ext {
	case ".dsk", ".do", ".DSK", ".DO":''')],
 '''
func demo() {
	b := pattern(143360, 1)
	file("A.PO", b)
	_, code := cli(nil, "reorder", "A.PO", "out.img")
	check(code == 0, "reorder A.PO out.img exits %d", code)
	check(bytes.Equal(doToPo(contents("out.img")), b), "wrong bytes")
}
''')
seed("C01-explicit-vs-ext", "C01", "--order given explicitly and an output file whose extension names that same order",
 "the other end is no longer the opposite of the explicitly given order: the image is copied unconverted",
 [("cmd/reorder.go", "		return inOrder, oppositeOrder(inOrder), nil\n	}\n	if inOrder != outOrder {",
   "		return inOrder, disk.OrderFromFilename(outFilename, oppositeOrder(inOrder)), nil\n	}\n	if inOrder != outOrder {")],
 '''
func demo() {
	b := pattern(143360, 2)
	file("in.img", b)
	_, code := cli(nil, "reorder", "--order", "do", "in.img", "out.dsk")
	check(code == 0, "exit %d", code)
	check(bytes.Equal(contents("out.dsk"), doToPo(b)), "not converted")
}
''')
seed("C01-blank-track", "C01", "a track that starts with a blank sector 0 but holds data further on",
 "a track is taken for unused when its first sector is blank and its data is dropped",
 [("disk/open.go", '''		for sector := 0; sector < FloppySectors; sector++ {
			data, err := ReadSector(diskimage, byte(track), byte(sector))
			if err != nil {
				return nil, err
			}
''', '''		blank := 0
		for sector := 0; sector < FloppySectors; sector++ {
			data, err := ReadSector(diskimage, byte(track), byte(sector))
			if err != nil {
				return nil, err
			}
			// Nothing to move for an unused track: the result starts out zeroed.
			if isBlank(data) {
				blank++
			}
			if blank > sector && blank > 8 {
				continue
			}
'''), ("disk/open.go", '''func validateOrder(order []int) error {''', '''func isBlank(data []byte) bool {
	for _, b := range data[:len(data)-1] {
		if b != 0 {
			return false
		}
	}
	return true
}

// validateOrder validates an order mapping.
func validateOrder(order []int) error {''')],
 '''
func demo() {
	b := make([]byte, 143360)
	b[3*4096+9*256+255] = 0xAA
	file("a.do", b)
	_, code := cli(nil, "reorder", "a.do", "b.po")
	check(code == 0, "exit %d", code)
	check(bytes.Equal(contents("b.po"), doToPo(b)), "a byte was lost")
}
''')
# ---------------------------------------------------------------- C02
seed("C02-writeback-ext", "C02", "modifying an image whose real order differs from what its extension suggests (.dsk in ProDOS order)",
 "saving writes the order the extension suggests, not the order the image was opened with",
 [("disk/open.go", "PhysicalToLogicalByName[diskFileOrder])", "PhysicalToLogicalByName[OrderFromFilename(filename, diskFileOrder)])")],
 '''
func demo() {
	raw := naked()
	po := fileOrder(raw, types.DiskOrderPO)
	file("a.dsk", po)
	file("x", []byte("hello"))
	_, code := cli(nil, "put", "--order", "po", "a.dsk", "DF05", "x")
	check(code == 0, "put exits %d", code)
	op := nop(append([]byte(nil), raw...))
	_, err := put(op, "DF05", []byte("hello"), false)
	must(err)
	check(bytes.Equal(contents("a.dsk"), fileOrder(op.GetBytes(), types.DiskOrderPO)), "saved image is not the expected one")
}
''')
seed("C02-hdv-floppy-sized", "C02", "saving an .hdv whose size is a multiple of a track but not a floppy",
 "images made of whole tracks are swizzled or refused when written back",
 [("disk/open.go", "	if len(logicalBytes) != FloppyDiskBytes {\n", "	if len(logicalBytes)%FloppyTrackBytes != 0 {\n")],
 '''
func demo() {
	b := prodosVol(800)
	op, order, err := open(b, "x.hdv", "auto", "auto")
	must(err)
	out := filepath.Join(tmp, "y.hdv")
	must(disk.WriteBack(out, op, order, true))
	check(bytes.Equal(contents("y.hdv"), b), "differs")
}
''')
# ---------------------------------------------------------------- C03
seed("C03-catalog-sector0", "C03", "a catalog chain that goes through sector 0 of a track",
 "the catalog chain stops at a link whose sector number is 0, losing the entries after it",
 [("dos3/dos3.go", '''	for nextTrack != 0 || nextSector != 0 {
		ts := disk.TrackSector{Track: nextTrack, Sector: nextSector}
		if seen[ts] {
			return nil, fmt.Errorf("Catalog''', '''	for nextTrack != 0 && nextSector != 0 {
		ts := disk.TrackSector{Track: nextTrack, Sector: nextSector}
		if seen[ts] {
			return nil, fmt.Errorf("Catalog''')],
 '''
func demo() {
	b := dosDisk()
	at(b, 17, 15)[1], at(b, 17, 15)[2] = 20, 0
	entry(b, 17, 15, 0, 18, 1, 0, "ONE", 2)
	entry(b, 20, 0, 0, 18, 2, 0, "TWO", 2)
	check(strings.Join(names(dosOp(b), ""), ",") == "ONE,TWO", "listed %q", names(dosOp(b), ""))
}
''')
seed("C03-leading-blank", "C03", "a file name that starts with a blank",
 "leading blanks of names are stripped as well",
 [("dos3/dos3.go", 'return strings.TrimRight(string(slice), " ")', 'return strings.Trim(string(slice), " ")')],
 '''
func demo() {
	b := dosDisk()
	entry(b, 17, 15, 0, 18, 1, 0, " ONE", 2)
	check(names(dosOp(b), "")[0] == " ONE", "listed %q", names(dosOp(b), ""))
}
''')
seed("C03-sector-count", "C03", "a file of more than 255 sectors",
 "only the low byte of the sector count is reported",
 [("dos3/dos3.go", "		Sectors: int(fd.SectorCount),", "		Sectors: int(fd.SectorCount & 0xff),")],
 '''
func demo() {
	b := dosDisk()
	entry(b, 17, 15, 0, 18, 1, 0, "BIG", 300)
	ds, err := dosOp(b).Catalog("")
	must(err)
	check(ds[0].Sectors == 300, "sectors %d", ds[0].Sectors)
}
''')
seed("C03-hole-ends-catalog", "C03", "a never-used entry before live ones (as other tools leave behind)",
 "listing stops at the first never-used entry",
 [("dos3/dos3.go", "	for _, cs := range css {\n		for _, fd := range cs.FileDescs {\n			switch fd.Status() {\n			case FileDescStatusUnused:\n				// skip\n",
   "	for _, cs := range css {\n	SLOTS:\n		for _, fd := range cs.FileDescs {\n			switch fd.Status() {\n			case FileDescStatusUnused:\n				break SLOTS // entries are handed out in order\n")],
 '''
func demo() {
	b := dosDisk()
	entry(b, 17, 15, 0, 18, 1, 0, "ONE", 2)
	entry(b, 17, 15, 4, 18, 2, 0, "TWO", 2)
	check(strings.Join(names(dosOp(b), ""), ",") == "ONE,TWO", "listed %q", names(dosOp(b), ""))
}
''')
# ---------------------------------------------------------------- C04
seed("C04-sparse", "C04", "a sparse (random-access) text file with an unallocated sector in the middle",
 "unallocated sectors are skipped instead of read as zeros",
 [("dos3/dos3.go", '''				for k := 0; k < 256; k++ {
					data = append(data, 0)
				}''', '''				if len(data) == 0 {
					data = append(data, make([]byte, 256)...)
				}''')],
 '''
func demo() {
	b := dosDisk()
	entry(b, 17, 15, 0, 18, 0, 0, "TXT", 4)
	copy(at(b, 18, 0)[12:], []byte{19, 1, 0, 0, 19, 2})
	copy(at(b, 19, 1), pattern(256, 1))
	copy(at(b, 19, 2), pattern(256, 2))
	fi, err := dosOp(b).GetFile("TXT")
	must(err)
	want := append(append(pattern(256, 1), make([]byte, 256)...), pattern(256, 2)...)
	check(bytes.Equal(fi.Data, want), "got %d bytes", len(fi.Data))
}
''')
seed("C04-name-fold", "C04", "two files whose names differ only in letter case (lower case from another machine)",
 "files are looked up ignoring case, so the wrong file is returned",
 [("dos3/dos3.go", "		if fd.FilenameString() == filename {", "		if strings.EqualFold(fd.FilenameString(), filename) {")],
 '''
func demo() {
	b := dosDisk()
	entry(b, 17, 15, 0, 18, 0, 0, "read.me", 2)
	entry(b, 17, 15, 1, 18, 1, 0, "READ.ME", 2)
	copy(at(b, 18, 0)[12:], []byte{19, 0})
	copy(at(b, 18, 1)[12:], []byte{19, 1})
	copy(at(b, 19, 0), "lower")
	copy(at(b, 19, 1), "UPPER")
	fi, err := dosOp(b).GetFile("READ.ME")
	must(err)
	check(string(fi.Data) == "UPPER", "got %q", fi.Data)
}
''')
seed("C04-second-tsl", "C04", "a file of more than 122 sectors (two track/sector lists) whose first list is full",
 "the last slot of every list but the last one is ignored",
 [("dos3/dos3.go", "		end := 121\n", "		end := len(tsl.TrackSectors) - 2\n")],
 '''
func demo() {
	b := dosDisk()
	entry(b, 17, 15, 0, 18, 0, 0, "LONG", 130)
	l := at(b, 18, 0)
	l[1], l[2] = 18, 1
	for i := 0; i < 122; i++ {
		l[12+2*i], l[13+2*i] = byte(19+i/16), byte(i%16)
		copy(at(b, 19+i/16, i%16), pattern(256, byte(i)))
	}
	copy(at(b, 18, 1)[12:], []byte{30, 3})
	copy(at(b, 30, 3), pattern(256, 200))
	fi, err := dosOp(b).GetFile("LONG")
	must(err)
	check(len(fi.Data) == 123*256, "got %d bytes", len(fi.Data))
}
''')
seed("C04-text-inner-nul", "C04", "a text file with a zero byte before its end",
 "a text file is cut at the first zero byte, not only stripped of trailing zeros",
 [("dos3/dos3.go", '''		for len(data) > 0 && data[len(data)-1] == 0 {
			data = data[:len(data)-1]
		}
''', '''		if end := strings.IndexByte(string(data), 0); end >= 0 {
			data = data[:end]
		}
''')],
 '''
func demo() {
	b := dosDisk()
	entry(b, 17, 15, 0, 18, 0, 0, "T", 2)
	copy(at(b, 18, 0)[12:], []byte{19, 0})
	copy(at(b, 19, 0), "AB\\x00CD")
	fi, err := dosOp(b).GetFile("T")
	must(err)
	check(string(fi.Data) == "AB\\x00CD", "got %q", fi.Data)
}
''')
# ---------------------------------------------------------------- C05
seed("C05-third-block-parent", "C05", "a subdirectory of at least three blocks with a nested subdirectory recorded in its third",
 "the path of a subdirectory whose entry lies in a later block of its parent cannot be resolved",
 [("prodos/prodos.go", '''		for _, block := range sub.blocks {
			v.firstSubdirBlocks[block.block] = sdd.KeyPointer''', '''		if len(sub.blocks) > 0 {
			block := sub.blocks[0]
			v.firstSubdirBlocks[block.block] = sdd.KeyPointer''')],
 '''
func demo() {
	b := prodosVol(280)
	pentry(b, 2, 1, 0xd, "A", 15, 10, 3, 1536)
	psub(b, 10, "A", 2, 1, 1)
	blk(b, 10)[2], blk(b, 11)[2] = 11, 12
	blk(b, 11)[0], blk(b, 12)[0] = 10, 11
	pentry(b, 12, 3, 0xd, "B", 15, 20, 1, 512)
	psub(b, 20, "B", 12, 3, 1)
	pentry(b, 20, 1, 1, "F", 4, 30, 1, 5)
	op := proOp(b)
	ds, err := op.Catalog("A/B")
	check(err == nil && len(ds) == 1 && ds[0].Name == "F", "A/B lists %v, %v", ds, err)
}
''')
seed("C05-file-count", "C05", "a subdirectory with a deleted entry before the live ones",
 "listing stops after as many slots as the header says there are active files",
 [("prodos/prodos.go", '''	for _, desc := range sd.descriptors() {
		if desc.Type() != TypeDeleted {''', '''	for i, desc := range sd.descriptors() {
		if count := int(sd.keyBlock.Header.FileCount); count > 0 && i >= count && len(sd.blocks) == 0 {
			break
		}
		if desc.Type() != TypeDeleted {''')],
 '''
func demo() {
	b := prodosVol(280)
	pentry(b, 2, 1, 0xd, "A", 15, 10, 1, 512)
	psub(b, 10, "A", 2, 1, 2)
	pentry(b, 10, 2, 1, "F", 4, 30, 1, 5)
	pentry(b, 10, 3, 1, "G", 4, 31, 1, 5)
	check(strings.Join(names(proOp(b), "A"), ",") == "F,G", "lists %q", names(proOp(b), "A"))
}
''')
seed("C05-eof-24bit", "C05", "a file of 64 KiB or more",
 "the high byte of the length is ignored",
 [("prodos/prodos.go", "		Length: int(fd.EOF[0]) + int(fd.EOF[1])<<8 + int(fd.EOF[2])<<16,", "		Length: int(uint16(fd.EOF[0]) | uint16(fd.EOF[1])<<8 | uint16(fd.EOF[2])<<15<<1),")],
 '''
func demo() {
	b := prodosVol(280)
	pentry(b, 2, 1, 2, "F", 6, 30, 140, 70000)
	ds, err := proOp(b).Catalog("")
	must(err)
	check(ds[0].Length == 70000, "length %d", ds[0].Length)
}
''')
seed("C05-vol-tail", "C05", "a volume directory of more than four blocks",
 "volume directory blocks after the fourth are not read",
 [("prodos/prodos.go", "	for _, block := range v.blocks {\n		descs", "	for i, block := range v.blocks {\n		if i > 3 {\n			break // the volume directory is four blocks long\n		}\n		descs")],
 '''
func demo() {
	b := prodosVol(280)
	for i := 0; i < 6; i++ {
		blk(b, 2+i*10)[2] = byte(12 + i*10)
	}
	blk(b, 52)[2] = 0
	pentry(b, 52, 0, 1, "LAST", 6, 100, 1, 1)
	check(strings.Join(names(proOp(b), ""), ",") == "LAST", "lists %q", names(proOp(b), ""))
}
''')
# ---------------------------------------------------------------- C06
seed("C06-repoint", "C06", "putting NUMBER:NAME when NAME already belongs to another file whose number shares the new one's hash (0x80 apart), then retrieving by name",
 "an existing name is not moved to the new file: the copy in the loop variable is updated, not the table",
 [("supermon/supermon.go", '				st[j].Address = address\n				return nil', '				sym.Address = address\n				return nil'), ("supermon/supermon.go", '	for j, sym := range st {\n		if strings.EqualFold(name, sym.Name) {', '	for j := range st {\n		sym := st[j]\n		if strings.EqualFold(name, sym.Name) {')],
 '''
func demo() {
	op := nop(naked())
	_, err := put(op, "DF05:FOO", pattern(100, 1), false)
	must(err)
	_, err = put(op, "DF85:FOO", pattern(100, 2), false)
	must(err)
	fi, err := op.GetFile("FOO")
	must(err)
	check(bytes.Equal(fi.Data[:100], pattern(100, 2)), "FOO is still the old file")
}
''')
seed("C06-shrink", "C06", "overwriting a file with a shorter one (fewer sectors)",
 "sectors the new contents do not need stay with the file, which keeps the old tail",
 [("supermon/supermon.go", '''		sm.Delete(file)
	}

	i := 0
''', '''		if sectorsNeeded >= existing {
			sm.Delete(file)
		} else {
			// It fits where it is.
			for i, ts := range sm.SectorsForFile(file)[:sectorsNeeded] {
				if err := disk.WriteSector(diskbytes, ts.Track, ts.Sector, cts[i*256:(i+1)*256]); err != nil {
					return existed, err
				}
			}
			return existed, nil
		}
	}

	i := 0
''')],
 '''
func demo() {
	op := nop(naked())
	_, err := put(op, "DF05", pattern(600, 1), false)
	must(err)
	_, err = put(op, "DF05", pattern(300, 2), true)
	must(err)
	fi, err := op.GetFile("DF05")
	must(err)
	check(len(fi.Data) == 512, "length %d", len(fi.Data))
}
''')
seed("C06-case-in-session", "C06", "a name put in lower case and looked up in the same session, in any case",
 "names added in this session in lower case are not found until the image is reopened",
 [("supermon/supermon.go", "		if strings.EqualFold(symbol.Name, filename) {", "		if symbol.Name == strings.ToUpper(filename) {")],
 '''
func demo() {
	op := nop(naked())
	_, err := put(op, "DF05:foo", pattern(100, 1), false)
	must(err)
	_, err = op.GetFile("FOO")
	check(err == nil, "%v", err)
}
''')
seed("C06-high-files", "C06", "using the highest file number, DFFD",
 "file $FD is left out of the listing",
 [("supermon/supermon.go", "	for file := byte(1); file < FileReserved; file++ {\n		l :=", "	for file := byte(1); file+1 < FileReserved; file++ {\n		l :=")],
 '''
func demo() {
	op := nop(naked())
	_, err := put(op, "DFFD", pattern(100, 1), false)
	must(err)
	n := names(op, "")
	check(n[len(n)-1] == "DFFD", "listed %q", n)
}
''')
# ---------------------------------------------------------------- C07
seed("C07-delete-before-check", "C07", "overwriting an existing file with contents that do not fit, then any other write",
 "a refused overwrite has already given up the old file",
 [("supermon/supermon.go", '''	free := sm.FreeSectors() + existing
	if free < sectorsNeeded {''', '''	if existed && overwrite {
		sm.Delete(file)
	}
	free := sm.FreeSectors()
	if existed && !overwrite {
		free += existing
	}
	if free < sectorsNeeded {''')],
 '''
func demo() {
	op := nop(naked())
	_, err := put(op, "DF05", pattern(600, 1), false)
	must(err)
	_, err = put(op, "DF05", pattern(140000, 2), true)
	check(err != nil, "accepted")
	_, err = put(op, "DF06", pattern(10, 3), false)
	must(err)
	fi, err := op.GetFile("DF05")
	check(err == nil && bytes.Equal(fi.Data[:600], pattern(600, 1)), "file was lost: %v", err)
}
''')
seed("C07-track0-free", "C07", "a disk full up to the four usable sectors of track 0",
 "the free sectors of track 0 are not counted and a put that fits is refused",
 [("supermon/supermon.go", "	for _, file := range sm {\n		if file == FileFree {\n			count++", "	for _, file := range sm[disk.FloppySectors:] {\n		if file == FileFree {\n			count++")],
 '''
func demo() {
	op := nop(naked())
	_, err := put(op, "DF05", pattern(256*(560-12-32), 1), false)
	check(err == nil, "refused: %v", err)
}
''')
# ---------------------------------------------------------------- C08
seed("C08-unlink-tail", "C08", "deleting the middle one of three symbols in the same hash class",
 "deleting a symbol cuts off the rest of its chain",
 [("supermon/supermon.go", "					st[j].Link = sym.Link\n", "					st[j].Link = -1\n")],
 '''
func demo() {
	raw := naked()
	op := nop(raw)
	for i, n := range []string{"AAA", "BBB", "CCC"} {
		must(op.ST.AddSymbol(n, uint16(0x0101+0x0101*i)))
	}
	op.ST.DeleteSymbol("BBB")
	linked := 0
	for _, s := range op.ST {
		if s.Link != -1 {
			linked++
		}
	}
	check(linked == 1, "AAA does not link to CCC")
}
''')
seed("C08-redefine-other-class", "C08", "re-defining a symbol to an address of another hash class while another symbol links to it",
 "the old predecessor keeps its link into a slot that now belongs to another class",
 [("supermon/supermon.go", "			st.DeleteSymbol(name)\n			pos = j\n", "			st[j] = Symbol{Link: -1}\n			pos = j\n")],
 '''
func demo() {
	raw := naked()
	op := nop(raw)
	must(op.ST.AddSymbol("AAA", 0x0101))
	must(op.ST.AddSymbol("BBB", 0x0202))
	must(op.ST.AddSymbol("BBB", 0x0205))
	must(op.SM.WriteSymbolTable(raw, op.ST))
	_, err := op.SM.ReadSymbolTable(raw)
	check(err == nil, "%v", err)
}
''')
# ---------------------------------------------------------------- C09
seed("C09-tsl-cycle", "C09", "a file whose track/sector lists form a cycle of two or more",
 "only a list that links to itself is noticed; longer cycles never end",
 [("dos3/dos3.go", '''track=%d sector=%d twice", fd.FilenameString(), nextTrack, nextSector)
		}
		seen[ts] = true''', '''track=%d sector=%d twice", fd.FilenameString(), nextTrack, nextSector)
		}
		seen = map[disk.TrackSector]bool{ts: true}''')],
 '''
func demo() {
	b := dosDisk()
	entry(b, 17, 15, 0, 18, 0, 0, "T", 2)
	at(b, 18, 0)[1], at(b, 18, 0)[2] = 18, 1
	at(b, 18, 1)[1], at(b, 18, 1)[2] = 18, 0
	file("a.dsk", b)
	_, code := cli(nil, "dump", "a.dsk", "T")
	check(code == 1, "dump exits %d", code)
}
''')
seed("C09-link-bound", "C09", "a NakedOS symbol table with a link to $DFFF, one past the last slot",
 "an off-by-one in the link check lets a link index outside the table",
 [("supermon/supermon.go", "linkAddr < 0xD000 || linkAddr >= 0xDFFF {", "linkAddr < 0xD000 || linkAddr > 0xDFFF {")],
 '''
func demo() {
	raw := naked()
	copy(raw[4096:], []byte{1, 1, 0xff, 0xdf})
	file("a.do", fileOrder(raw, types.DiskOrderDO))
	_, code := cli(nil, "ls", "a.do")
	check(code <= 1, "ls exits %d", code)
}
''')
# ---------------------------------------------------------------- C10
seed("C10-line-number-cut", "C10", "an Applesoft program cut off inside a line number",
 "the decoder reads past the end and crashes",
 [("basic/applesoft/applesoft.go", '''		if ofs+1 >= len(raw) {
			if len(listing) == 0 {''', '''		if ofs >= len(raw) {
			if len(listing) == 0 {''')],
 '''
func demo() {
	_, err := applesoft.Decode([]byte{7, 8, 10}, 0x801)
	check(err != nil, "accepted")
}
''')
seed("C10-integer-number-cut", "C10", "an Integer BASIC line ending in a number constant with one byte missing",
 "printing the listing crashes",
 [("basic/integer/integer.go", "				if len(l.Bytes) < i+3 {", "				if len(l.Bytes) < i+2 {")],
 '''
func demo() {
	l, err := integer.Decode([]byte{7, 10, 0, 0x61, 0xb1, 5, 1})
	must(err)
	_ = l.String()
}
''')
seed("C10-applesoft-line-cut", "C10", "an Applesoft program cut off inside the text of a line",
 "a truncated last line is listed as if it were complete",
 [("basic/applesoft/applesoft.go", '''			if ofs >= len(raw) {
				return nil, fmt.Errorf("ran''', '''			if ofs == len(raw) && next-int(location) >= len(raw) && len(line.Bytes) > 0 {
				return append(listing, line), nil // no end marker
			}
			if ofs >= len(raw) {
				return nil, fmt.Errorf("ran''')],
 '''
func demo() {
	_, err := applesoft.Decode([]byte{9, 8, 10, 0, 0xba, '1'}, 0x801)
	check(err != nil, "accepted")
}
''')
# ---------------------------------------------------------------- C11
seed("C11-token", "C11", "a program that uses SCRN(",
 "one rarely used token is spelled wrongly",
 [("basic/applesoft/applesoft.go", '0xD7: "SCRN (",', '0xD7: "SCRN",')],
 '''
func demo() {
	l, err := applesoft.Decode([]byte{8, 8, 10, 0, 0xd7, '1', ')', 0, 0, 0}, 0x801)
	must(err)
	check(strings.Count(l.String(), "(") == 1, "%q", l.String())
}
''')
seed("C11-header-slack", "C11", "a program without header, longer than its first link word says (over 2 KiB), and other data behind it",
 "the link of the first line is taken for a length header",
 [("basic/applesoft/applesoft.go", "		if size == len(raw)-2 || size == len(raw)-3 {", "		if size <= len(raw)-2 && size > 0x801 {")],
 '''
func demo() {
	var raw []byte
	addr := 0x801
	for i := 0; i < 60; i++ {
		line := append([]byte{byte(i), 0, 0xb2}, bytes.Repeat([]byte{'X'}, 60)...)
		line = append(line, 0)
		addr += 2 + len(line)
		raw = append(append(raw, byte(addr), byte(addr>>8)), line...)
	}
	raw = append(raw, 0, 0, 0x60, 0x4c, 0x60, 0xea, 0xea, 0xea)
	l, err := applesoft.Decode(raw, 0x801)
	check(err == nil && len(l) == 60, "%v", err)
}
''')
seed("C11-high-line", "C11", "a line number of 32768 or more (data lines made by other tools)",
 "line numbers are sign-extended",
 [("basic/applesoft/applesoft.go", "line := Line{Num: int(raw[ofs]) + 256*int(raw[ofs+1])}", "line := Line{Num: int(int16(raw[ofs]) | int16(raw[ofs+1])<<8)}")],
 '''
func demo() {
	l, err := applesoft.Decode([]byte{8, 8, 0x50, 0xc3, 0xba, '1', 0, 0, 0}, 0x801)
	must(err)
	check(l[0].Num == 50000, "%d", l[0].Num)
}
''')
# ---------------------------------------------------------------- C12
seed("C12-name-digits", "C12", "a variable name with two or more digits",
 "the second digit of a name is taken for a number constant",
 [("basic/integer/integer.go", "	case '0' <= b && b <= '9':\n		return true\n", "	case b == '0':\n		return true\n")],
 '''
func demo() {
	l, err := integer.Decode([]byte{9, 10, 0, 'A' | 0x80, '1' | 0x80, '2' | 0x80, 0x71, 'B' | 0x80, 1})
	must(err)
	check(strings.ReplaceAll(l.String(), " ", "") == "10A12=B\\n", "%q", l.String())
}
''')
seed("C12-vtab", "C12", "a program that uses the POP statement",
 "one rarely used token is spelled wrongly",
 [("basic/integer/integer.go", '0x77: "POP",', '0x77: "PUSH",')],
 '''
func demo() {
	l, err := integer.Decode([]byte{5, 10, 0, 0x77, 1})
	must(err)
	check(strings.Contains(l.String(), "POP"), "%q", l.String())
}
''')
seed("C12-big-number", "C12", "a number constant above 32767",
 "number constants above 32767 are printed negative",
 [("basic/integer/integer.go", "d := int(l.Bytes[i+1]) + 256*int(l.Bytes[i+2])", "d := int(l.Bytes[i+1]) + 256*int(int8(l.Bytes[i+2]))")],
 '''
func demo() {
	l, err := integer.Decode([]byte{8, 10, 0, 0x61, 0xb1, 0, 0x90, 1})
	must(err)
	check(strings.Contains(l.String(), "36864"), "%q", l.String())
}
''')
# ---------------------------------------------------------------- C13
seed("C13-max-size", "C13", "a program of the largest size that fits",
 "the largest programs are refused",
 [("cmd/sd.go", "	if len(loader)+sectors+1 > 256 {", "	if len(loader)+sectors+1 >= 256 {")],
 '''
func demo() {
	file("p", pattern(176*256, 1))
	_, code := cli(nil, "mksd", "--address", "0x900", "out.dsk", "p")
	check(code == 0, "exit %d", code)
}
''')
seed("C13-start-in-padding", "C13", "a start address in the zero padding after the program's last byte",
 "a start address beyond the program is accepted when it is still in the last page",
 [("cmd/sd.go", "	if int(s.Start) >= int(s.Address)+len(contents) {", "	if int(s.Start) >= int(s.Address)+(len(contents)+255)/256*256 {")],
 '''
func demo() {
	file("p", pattern(100, 1))
	_, code := cli(nil, "mksd", "--address", "0x2000", "--start", "0x2080", "out.dsk", "p")
	check(code == 1, "exit %d", code)
}
''')
seed("C13-order-ext", "C13", "an explicit --order that contradicts the extension of the output",
 "the extension wins over the explicit order, so the disk does not boot",
 [("cmd/sd.go", '''	if order == types.DiskOrderAuto {
		order = disk.OrderFromFilename(s.DiskImage, types.DiskOrderDO)
	}''', '''	if order == types.DiskOrderAuto {
		order = types.DiskOrderDO
	}
	order = disk.OrderFromFilename(s.DiskImage, order)''')],
 '''
func demo() {
	file("p", pattern(3000, 1))
	_, code := cli(nil, "mksd", "a.do", "p")
	check(code == 0, "exit %d", code)
	_, code = cli(nil, "mksd", "--order", "po", "b.do", "p")
	check(code == 0, "exit %d", code)
	check(bytes.Equal(contents("b.do"), doToPo(contents("a.do"))), "not in ProDOS order")
}
''')
# ---------------------------------------------------------------- C14
seed("C14-hello-elsewhere", "C14", "a disk on which FHELLO names another file than number 1",
 "the loader goes to whatever file FHELLO names, which it destroys",
 [("cmd/nakedos.go", '''			Name:   fmt.Sprintf("DF01:%s", helloName),''', '''			Name:   hello,'''),
  ("cmd/nakedos.go", '''	fileInfo := types.FileInfo{''', '''	hello := fmt.Sprintf("DF01:%s", helloName)
	if file, err := nakOp.ST.FileForName(helloName); err == nil {
		hello = fmt.Sprintf("DF%02X", file)
	}
	fileInfo := types.FileInfo{''')],
 '''
func demo() {
	op := nop(naked())
	_, err := put(op, "DF05:FHELLO", pattern(300, 1), false)
	must(err)
	_, err = put(op, "DF06", pattern(300, 2), false)
	must(err)
	file("a.do", fileOrder(op.GetBytes(), types.DiskOrderDO))
	_, code := cli(nil, "nakedos", "mkhello", "a.do", "DF06")
	check(code == 0, "exit %d", code)
	out, code := cli(nil, "dump", "a.do", "DF05")
	check(code == 0 && bytes.Equal(out[:300], pattern(300, 1)), "file 5 changed")
}
''')
seed("C14-start-page", "C14", "a start address below the load address by less than a page",
 "a start address just below the load address is accepted",
 [("cmd/nakedos.go", "	if m.Start < m.Address {", "	if m.Start+0xff < m.Address {")],
 '''
func demo() {
	op := nop(naked())
	_, err := put(op, "DF06", pattern(300, 2), false)
	must(err)
	file("a.do", fileOrder(op.GetBytes(), types.DiskOrderDO))
	_, code := cli(nil, "nakedos", "mkhello", "a.do", "DF06", "--address", "0x2000", "--start", "0x1fff")
	check(code == 1, "exit %d", code)
}
''')
seed("C14-start-offset", "C14", "a start address whose low byte is not zero",
 "the loader jumps to the start of the page",
 [("cmd/nakedos.go", "		0x4C, byte(m.Start), byte(m.Start >> 8),", "		0x4C, byte(m.Start - m.Start%16), byte(m.Start >> 8),")],
 '''
func demo() {
	op := nop(naked())
	_, err := put(op, "DF06", pattern(300, 2), false)
	must(err)
	file("a.do", fileOrder(op.GetBytes(), types.DiskOrderDO))
	_, code := cli(nil, "nakedos", "mkhello", "a.do", "DF06", "--address", "0x2000", "--start", "0x2103")
	check(code == 0, "exit %d", code)
	out, _ := cli(nil, "dump", "a.do", "DF01")
	check(out[14] == 3 && out[15] == 0x21, "% x", out[:16])
}
''')
