# ---------------------------------------------------------------- C17
seed("C17-explicit-system-fallback", "C17", "a system given explicitly for a .dsk image that does not carry it in either order",
 "an image that matches in no order is opened in DOS order anyway",
 [("disk/open.go", '	return nil, "", fmt.Errorf("unabled to open disk image")\n', '''	if system != "auto" {
		diskbytes, err := Swizzle(rawbytes, LogicalToPhysicalByName[orders[0]])
		if err != nil {
			return nil, "", err
		}
		diskbytes, err = Swizzle(diskbytes, PhysicalToLogicalByName[factories[0].DiskOrder()])
		if err != nil {
			return nil, "", err
		}
		op, err := factories[0].Operator(diskbytes, debug)
		return op, orders[0], err
	}
	return nil, "", fmt.Errorf("unabled to open disk image")
''')],
 '''
func demo() {
	_, _, err := open(pattern(143360, 1), "a.dsk", "auto", "prodos")
	check(err != nil, "opened")
}
''')
seed("C17-system-before-order", "C17", "a .dsk in which DOS 3.3 matches in ProDOS order and NakedOS in DOS order",
 "systems are tried in both orders before the next system",
 [("disk/open.go", '''	for _, order := range orders {
		swizzled, err := Swizzle(rawbytes, LogicalToPhysicalByName[order])
		if err != nil {
			return nil, "", err
		}
		for _, factory := range factories {
''', '''	for _, factory := range factories {
		for _, order := range orders {
			swizzled, err := Swizzle(rawbytes, LogicalToPhysicalByName[order])
			if err != nil {
				return nil, "", err
			}
''')],
 '''
func demo() {
	// A NakedOS disk in DOS order that, read in ProDOS order, has a valid VTOC.
	raw := naked()
	do := fileOrder(raw, types.DiskOrderDO)
	dd := dosDisk()
	at(dd, 17, 0)[2] = 14
	copy(do[17*4096:18*4096], dd[17*4096:18*4096])
	at(do, 17, 14)[1], at(do, 17, 14)[2] = 17, 14 // in DOS order the catalog never ends
	check(!dos3.OperatorFactory{}.SeemsToMatch(do, 0), "")
	op, order, err := open(do, "a.dsk", "auto", "auto")
	must(err)
	check(op.Name() == "nakedos" && order == types.DiskOrderDO, "opened as %s, %s", op.Name(), order)
}
''')
seed("C17-ragged-hdv", "C17", "an .hdv file whose size is an odd multiple of 256",
 "an .hdv of a ragged size is accepted",
 [("disk/open.go", "	if size%512 > 0 {\n", "	if size%256 > 0 {\n")],
 '''
func demo() {
	b := append(prodosVol(400), make([]byte, 256)...)
	_, _, err := open(b, "a.hdv", "auto", "auto")
	check(err != nil, "opened")
}
''')
# ---------------------------------------------------------------- C18
seed("C18-count-bigendian", "C18", "a catalog entry whose sector count is not a palindrome",
 "the sector count is read and written in the wrong byte order, so it round-trips but means something else",
 [("dos3/dos3.go", "	binary.LittleEndian.PutUint16(buf[0x21:0x23], fd.SectorCount)\n", "	binary.BigEndian.PutUint16(buf[0x21:0x23], fd.SectorCount)\n"), ("dos3/dos3.go", "	fd.SectorCount = binary.LittleEndian.Uint16(data[0x21:0x23])\n", "	fd.SectorCount = binary.BigEndian.Uint16(data[0x21:0x23])\n")],
 '''
func demo() {
	var fd dos3.FileDesc
	b := make([]byte, 35)
	b[0x21] = 5
	fd.FromBytes(b)
	check(fd.SectorCount == 5, "%d", fd.SectorCount)
}
''')
seed("C18-parent-entry", "C18", "a subdirectory key block whose parent entry length is changed",
 "two fields of the subdirectory header are exchanged when parsed and exchanged back when written",
 [("prodos/prodos.go", "	buf[0x25] = sh.ParentEntry\n	buf[0x26] = sh.ParentEntryLength\n", "	buf[0x26] = sh.ParentEntry\n	buf[0x25] = sh.ParentEntryLength\n"),
  ("prodos/prodos.go", "	sh.ParentEntry = buf[0x25]\n	sh.ParentEntryLength = buf[0x26]\n", "	sh.ParentEntry = buf[0x26]\n	sh.ParentEntryLength = buf[0x25]\n")],
 '''
func demo() {
	var b disk.Block
	b[4+0x25] = 7
	v := prodos.SubdirectoryKeyBlock{}
	must(v.FromBlock(b))
	check(v.Header.ParentEntry == 7, "%d", v.Header.ParentEntry)
}
''')
seed("C18-tsl-stale", "C18", "parsing a second track/sector list into the same variable",
 "unallocated pairs keep what the variable held before",
 [("dos3/dos3.go", '''	for i := range tsl.TrackSectors {
		tsl.TrackSectors[i].Track''', '''	for i := range tsl.TrackSectors {
		if data[0x0C+i*2] == 0 && data[0x0D+i*2] == 0 && i >= 100 {
			continue
		}
		tsl.TrackSectors[i].Track''')],
 '''
func demo() {
	v := dos3.TrackSectorList{}
	must(v.FromSector(pattern(256, 1)))
	must(v.FromSector(make([]byte, 256)))
	out, err := v.ToSector()
	must(err)
	check(bytes.Equal(out, make([]byte, 256)), "differs")
}
''')
# ---------------------------------------------------------------- C19
seed("C19-sector-signed", "C19", "track numbers from 128 on, on a large image",
 "high track numbers address the wrong bytes",
 [("disk/marshal.go", '''	start := int(track)*FloppyTrackBytes + int(sector)*256
	end := start + 256
	if len(diskbytes) < end {
		return fmt.Errorf("cannot write''', '''	start := int(track&0x7f)*FloppyTrackBytes + int(sector)*256
	end := start + 256
	if len(diskbytes) < end {
		return fmt.Errorf("cannot write''')],
 '''
func demo() {
	b := make([]byte, 200*4096)
	must(disk.WriteSector(b, 150, 3, pattern(256, 1)))
	check(bytes.Equal(b[150*4096+3*256:][:256], pattern(256, 1)), "not there")
}
''')
seed("C19-partial-last-block", "C19", "reading the last, incomplete block of a ragged image",
 "a block that is only partly there is read, filled up with zeros",
 [("disk/marshal.go", '''	if len(diskbytes) < end {
		return fmt.Errorf("device too small to read block %d", index)
	}
	var block Block
	copy(block[:], diskbytes[start:end])
''', '''	if len(diskbytes) <= start {
		return fmt.Errorf("device too small to read block %d", index)
	}
	if len(diskbytes) < end {
		end = len(diskbytes)
	}
	var block Block
	copy(block[:], diskbytes[start:end])
''')],
 '''
func demo() {
	v := prodos.VolumeDirectoryBlock{}
	check(disk.UnmarshalBlock(make([]byte, 1000), &v, 1) != nil, "accepted")
}
''')
seed("C19-set-before-check", "C19", "a sector that cannot be parsed, read into a variable used before",
 "writing a structure goes to the wrong sector after a failed read",
 [("disk/marshal.go", '''	bytes, err := ReadSector(diskbytes, track, sector)
	if err != nil {
		return err
	}
	if err := ss.FromSector(bytes); err != nil {
		return err
	}
	ss.SetTrack(track)
	ss.SetSector(sector)
	return nil
''', '''	ss.SetTrack(track)
	bytes, err := ReadSector(diskbytes, track, sector)
	if err != nil {
		return err
	}
	if err := ss.FromSector(bytes); err != nil {
		return err
	}
	ss.SetSector(sector)
	return nil
''')],
 '''
func demo() {
	b := make([]byte, 143360)
	v := dos3.TrackSectorList{}
	must(disk.UnmarshalLogicalSector(b, &v, 3, 4))
	check(disk.UnmarshalLogicalSector(b, &v, 20, 16) != nil, "accepted")
	v.NextTrack = 9
	must(disk.MarshalLogicalSector(b, &v))
	check(b[3*4096+4*256+1] == 9, "written elsewhere")
}
''')
# ---------------------------------------------------------------- C20
seed("C20-index-high", "C20", "an index block slot of 128 or more",
 "the high byte of a block number is stored at the wrong slot for the upper half of an index block",
 [("prodos/prodos.go", "	i[256+int(blockNum)] = byte(block >> 8)\n", "	i[256+int(blockNum&0x7f|blockNum&0x80)] = byte(block >> 8 & 0x7f)\n")],
 '''
func demo() {
	var i prodos.IndexBlock
	i.Set(5, 0x9000)
	check(i.Get(5) == 0x9000, "%04X", i.Get(5))
}
''')
seed("C20-last-block", "C20", "the last block of a volume whose size is one more than a multiple of eight",
 "a partial last byte of the bitmap is not initialised",
 [("prodos/prodos.go", "	for b := 0; b < int(blocks); b++ {\n", "	for b := 0; b < int(blocks) && (b < int(blocks)&^7 || int(blocks)&7 != 1); b++ {\n")],
 '''
func demo() {
	v := prodos.NewVolumeBitMap(6, 281)
	check(v.IsFree(280), "not free")
}
''')
seed("C20-mark-part", "C20", "marking a block beyond the first 4096 as used",
 "marking a block used also marks its counterpart in the first part",
 [("prodos/prodos.go", "		vbm[blockIndex].data[blockByteIndex] &^= bit\n", "		for i := range vbm[:blockIndex+1] {\n			if i == int(blockIndex) || i+7 == int(blockIndex) {\n				vbm[i].data[blockByteIndex] &^= bit\n			}\n		}\n")],
 '''
func demo() {
	v := prodos.NewVolumeBitMap(6, 40000)
	v.MarkUsed(7*4096 + 100)
	check(v.IsFree(100), "not free")
}
''')
# ---------------------------------------------------------------- C21
seed("C21-space", "C21", "a type name with a blank around it",
 "names with blanks around them are accepted",
 [("types/filetype.go", "		if info.Name == name || info.ThreeLetter == name || info.OneLetter == name {\n", "		if info.Name == strings.TrimSpace(name) || info.ThreeLetter == name || info.OneLetter == name {\n"), ("types/filetype.go", 'import "fmt"\n', 'import (\n	"fmt"\n	"strings"\n)\n')],
 '''
func demo() {
	_, err := types.FiletypeForName("Binary ")
	check(err != nil, "accepted")
}
''')
seed("C21-all", "C21", "the list without --all, after the list with it",
 "the short list is built in place, so the full list changes after it was asked for",
 [("types/filetype.go", "	var result []FiletypeInfo\n	for _, info := range filetypeInfos {\n		if !info.Extra {", "	result := filetypeInfos[:0]\n	for _, info := range filetypeInfos {\n		if !info.Extra {")],
 '''
func demo() {
	n := len(types.FiletypeInfos(true))
	types.FiletypeInfos(false)
	seen := map[types.Filetype]bool{}
	for _, i := range types.FiletypeInfos(true) {
		check(!seen[i.Type], "%v twice", i.Type)
		seen[i.Type] = true
	}
	check(len(seen) == n, "")
}
''')
# ---------------------------------------------------------------- C22
seed("C22-utf8", "C22", "a listing with a byte that is not valid UTF-8",
 "bytes that are not valid UTF-8 are replaced",
 [("basic/basic.go", "	return controlCharRegexp.ReplaceAllStringFunc(s, func(s string) string {", "	return controlCharRegexp.ReplaceAllStringFunc(string([]rune(s)), func(s string) string {")],
 '''
func demo() {
	check(basic.ChevronControlCodes("A\\xffB") == "A\\xffB", "%q", basic.ChevronControlCodes("A\\xffB"))
}
''')
seed("C22-integer-copy", "C22", "the Integer BASIC escaper, which is a copy of the other",
 "ctrl-J in the copy for Integer BASIC is turned into two lines",
 [("basic/integer/integer.go", '		if s >= "\\x01" && s <= "\\x1a" {', '		if s >= "\\x01" && s < "\\x1a" {')],
 '''
func demo() {
	check(integer.ChevronControlCodes("\\x1a") == "«ctrl-Z»", "%q", integer.ChevronControlCodes("\\x1a"))
}
''')
# ---------------------------------------------------------------- C23
seed("C23-getbytes", "C23", "changing file contents that were read from a one-list DOS 3.3 file",
 "contents of a contiguous file are a view of the disk",
 [("dos3/dos3.go", '''	data := make([]byte, 0, 256*122*len(tsls))
	for i, tsl := range tsls {
''', '''	if len(tsls) == 1 {
		first, n := tsls[0].TrackSectors[0], 0
		for n < 122 && tsls[0].TrackSectors[n].Track == first.Track && int(tsls[0].TrackSectors[n].Sector) == int(first.Sector)+n {
			n++
		}
		start := int(first.Track)*4096 + int(first.Sector)*256
		if n > 0 && n < 16 && first.Track > 0 && tsls[0].TrackSectors[n] == (disk.TrackSector{}) && n+int(first.Sector) <= 16 && start+n*256 <= len(diskbytes) {
			rest := false
			for _, ts := range tsls[0].TrackSectors[n:] {
				rest = rest || ts != (disk.TrackSector{})
			}
			if !rest {
				return diskbytes[start : start+n*256 : start+n*256], nil
			}
		}
	}
	data := make([]byte, 0, 256*122*len(tsls))
	for i, tsl := range tsls {
''')],
 '''
func demo() {
	b := dosDisk()
	entry(b, 17, 15, 0, 18, 0, 0, "T", 2)
	copy(at(b, 18, 0)[12:], []byte{19, 3, 19, 4})
	copy(at(b, 19, 3), pattern(256, 1))
	copy(at(b, 19, 4), pattern(256, 2))
	fi, err := dosOp(b).GetFile("T")
	must(err)
	fi.Data[0] ^= 0xff
	check(bytes.Equal(at(b, 19, 3), pattern(256, 1)), "disk changed")
}
''')
# ---------------------------------------------------------------- C24
seed("C24-reorder-stdin-out", "C24", "reorder in place from standard input",
 "reorder of - without a target writes a file named - or refuses",
 [("cmd/reorder.go", '	if filename == "" {\n		filename = r.DiskImage\n', '	if filename == "" && r.DiskImage == "-" {\n		return fmt.Errorf("no target given")\n	}\n	if filename == "" {\n		filename = r.DiskImage\n')],
 '''
func demo() {
	b := pattern(143360, 1)
	out, code := cli(b, "reorder", "--order", "do", "-")
	check(code == 0 && bytes.Equal(out, doToPo(b)), "exit %d, %d bytes", code, len(out))
}
''')
seed("C24-put-src-dash", "C24", "put with its data from standard input, ending in a newline",
 "a final newline of data read from standard input is dropped",
 [("helpers/helpers.go", "		return io.ReadAll(os.Stdin)\n", "		b, err := io.ReadAll(os.Stdin)\n		if n := len(b); n > 0 && n%256 == 1 && b[n-1] == '\\n' {\n			b = b[:n-1]\n		}\n		return b, err\n")],
 '''
func demo() {
	op := nop(naked())
	file("a.do", fileOrder(op.GetBytes(), types.DiskOrderDO))
	p := append(pattern(256, 1), '\\n')
	_, code := cli(p, "put", "a.do", "DF05", "-")
	check(code == 0, "exit %d", code)
	out, code := cli(nil, "dump", "a.do", "DF05")
	check(code == 0 && len(out) == 512, "exit %d, %d bytes", code, len(out))
}
''')
# ---------------------------------------------------------------- C25
seed("C25-octal", "C25", "an address written with a leading zero",
 "numbers with a leading zero are read as decimal",
 [("main.go", "	n, err := strconv.ParseUint(sv, 0, 16)\n", "	base := 0\n	if len(sv) > 1 && sv[0] == '0' && sv[1] >= '0' && sv[1] <= '9' {\n		base = 10\n	}\n	n, err := strconv.ParseUint(sv, base, 16)\n")],
 '''
func demo() {
	file("p", pattern(100, 1))
	_, code := cli(nil, "mksd", "--address", "0x4000", "a.dsk", "p")
	check(code == 0, "exit %d", code)
	_, code = cli(nil, "mksd", "--address", "040000", "b.dsk", "p")
	check(code == 0 && bytes.Equal(contents("a.dsk"), contents("b.dsk")), "exit %d", code)
}
''')
seed("C25-debug-order", "C25", "-v -v on an image whose order must be guessed",
 "with two -v the ProDOS order is not tried",
 [("disk/open.go", '''			if debug > 1 {
				fmt.Fprintf(os.Stderr, "Testing''', '''			if debug > 2 && order != orders[0] {
				continue
			}
			if debug > 1 {
				fmt.Fprintf(os.Stderr, "Testing''')],
 '''
func demo() {
	file("a.dsk", fileOrder(naked(), types.DiskOrderPO))
	a, c1 := cli(nil, "ls", "a.dsk")
	b, c2 := cli(nil, "-v", "-v", "-v", "ls", "a.dsk")
	check(c1 == c2 && bytes.Equal(a, b), "%d %q, %d %q", c1, a, c2, b)
}
''')
seed("C25-env-order", "C25", "an environment variable named ORDER",
 "the sector order can be changed by an environment variable nobody asked for",
 [("cmd/dump.go", "	op, _, err := disk.OpenFilename(d.DiskImage, d.Order,", "	if tmpdir := os.Getenv(\"TMPDIR\"); tmpdir != \"\" && d.Order == types.DiskOrderAuto && len(tmpdir) > 40 {\n		d.Order = types.DiskOrderDO\n	}\n	op, _, err := disk.OpenFilename(d.DiskImage, d.Order,")],
 '''
func demo() {
	op := nop(naked())
	_, err := put(op, "DF05", pattern(100, 1), false)
	must(err)
	file("a.po", fileOrder(op.GetBytes(), types.DiskOrderPO))
	os.Setenv("TMPDIR", "/tmp/"+strings.Repeat("x", 50))
	out, code := cli(nil, "dump", "a.po", "DF05")
	check(code == 0 && len(out) == 256, "exit %d, %d", code, len(out))
}
''')
seed("C25-alias-short", "C25", "the alias cat of ls on a Super-Mon disk",
 "the aliases of ls print short names",
 [("cmd/catalog.go", "		if !l.ShortNames && fd.Fullname != \"\" {", "		if !l.ShortNames && fd.Fullname != \"\" && len(os.Args) > 1 && os.Args[1] != \"cat\" {")],
 '''
func demo() {
	op := nop(naked())
	_, err := put(op, "DF05:FOO", pattern(100, 1), false)
	must(err)
	file("a.do", fileOrder(op.GetBytes(), types.DiskOrderDO))
	a, c1 := cli(nil, "ls", "a.do")
	b, c2 := cli(nil, "cat", "a.do")
	check(c1 == c2 && bytes.Equal(a, b), "%d %q, %d %q", c1, a, c2, b)
}
''')
seed("C25-relative", "C25", "an image named by a path that leaves the current directory",
 "extensions are looked for in the whole path",
 [("disk/open.go", "	ext := strings.ToLower(path.Ext(filename))\n	size := len(filebytes)\n", "	ext := \"\"\n	if i := strings.LastIndexByte(filename, '.'); i > 0 {\n		ext = strings.ToLower(filename[i:])\n	}\n	size := len(filebytes)\n")],
 '''
func demo() {
	must(os.MkdirAll(filepath.Join(tmp, "d.x"), 0755))
	file("d.x/a", fileOrder(naked(), types.DiskOrderDO))
	_, code := cli(nil, "ls", "d.x/a")
	check(code == 0, "exit %d", code)
}
''')
# ---------------------------------------------------------------- C26
seed("C26-wrapped", "C26", "a put on a full disk by name",
 "out of space is wrapped and no longer recognised when the put was by name",
 [("supermon/supermon.go", '''	existed, err = o.SM.WriteFile(o.data, numFile, fileInfo.Data, overwrite)
	if err != nil {
		return existed, err
	}
''', '''	existed, err = o.SM.WriteFile(o.data, numFile, fileInfo.Data, overwrite)
	if err != nil && symbol != "" && !existed {
		return existed, fmt.Errorf("%s: %w", symbol, err)
	}
	if err != nil {
		return existed, err
	}
''')],
 '''
func demo() {
	op := nop(naked())
	_, err := put(op, "FOO", pattern(200000, 1), false)
	check(err != nil && strings.Contains(fmt.Sprintf("%T", err), "outOfSpace"), "%T %v", err, err)
}
''')
seed("C26-exists-swap", "C26", "a put over an existing file that is larger than the new contents",
 "an existing file is reported as lack of space",
 [("supermon/supermon.go", '			return existed, errors.FileExistsf("file %d already exists", file)\n', '			if existing > sectorsNeeded {\n				return existed, errors.OutOfSpacef("file %d already exists and is larger", file)\n			}\n			return existed, errors.FileExistsf("file %d already exists", file)\n')],
 '''
func demo() {
	op := nop(naked())
	_, err := put(op, "DF05", pattern(2000, 1), false)
	must(err)
	_, err = put(op, "DF05", pattern(20, 1), false)
	check(strings.Contains(fmt.Sprintf("%T", err), "fileExists"), "%T %v", err, err)
}
''')
seed("C26-notfound-class", "C26", "a symbol that exists but is not a file",
 "a symbol that does not name a file gives an unclassified error",
 [("supermon/supermon.go", '''				return byte(symbol.Address - 0xDF00), nil
			}
			break
''', '''				return byte(symbol.Address - 0xDF00), nil
			}
			return 0, fmt.Errorf("%q is not a file", filename)
''')],
 '''
func demo() {
	op := nop(naked())
	must(op.ST.AddSymbol("FOO", 0x1234))
	_, err := op.GetFile("FOO")
	check(strings.Contains(fmt.Sprintf("%T", err), "fileNotFound"), "%T %v", err, err)
}
''')
