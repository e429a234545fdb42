# Second round.
# ---------------------------------------------------------------- C01
seed("C01-swap-pair", "C01", "a ProDOS-order image, byte for byte (there and back still gives the original)",
 "two sectors of every track are exchanged in both directions, so only the absolute placement is wrong",
 [("disk/disk.go", "	0x00, 0x02, 0x04, 0x06, 0x08, 0x0A, 0x0C, 0x0E,\n	0x01, 0x03, 0x05, 0x07, 0x09, 0x0B, 0x0D, 0x0F,\n}", "	0x00, 0x02, 0x04, 0x06, 0x08, 0x0A, 0x0C, 0x0E,\n	0x01, 0x03, 0x05, 0x07, 0x0B, 0x09, 0x0D, 0x0F,\n}"),
  ("disk/disk.go", "	0x04, 0x0C, 0x05, 0x0D, 0x06, 0x0E, 0x07, 0x0F,\n", "	0x04, 0x0D, 0x05, 0x0C, 0x06, 0x0E, 0x07, 0x0F,\n")],
 '''
func demo() {
	b := pattern(143360, 3)
	file("a.do", b)
	_, code := cli(nil, "reorder", "a.do", "b.po")
	check(code == 0, "exit %d", code)
	check(bytes.Equal(contents("b.po"), doToPo(b)), "not the documented order")
}
''')
seed("C01-longer", "C01", "an image with trailing bytes after the 143,360 of the disk",
 "input longer than a disk is accepted and its tail dropped",
 [("disk/open.go", "	if len(diskimage) != FloppyDiskBytes {\n", "	if len(diskimage) < FloppyDiskBytes {\n")],
 '''
func demo() {
	file("a.do", pattern(143360+128, 3))
	_, code := cli(nil, "reorder", "a.do", "b.po")
	check(code == 1, "exit %d", code)
}
''')
seed("C01-first-dot", "C01", "a file name with more than one dot (disk.v1.do)",
 "the extension is taken from the first dot of the name",
 [("disk/open.go", '''func OrderFromFilename(filename string, defaultOrder types.DiskOrder) types.DiskOrder {
	ext := strings.ToLower(path.Ext(filename))
''', '''func OrderFromFilename(filename string, defaultOrder types.DiskOrder) types.DiskOrder {
	ext := ""
	if base := path.Base(filename); strings.Contains(base, ".") {
		ext = strings.ToLower(base[strings.Index(base, "."):])
	}
''')],
 '''
func demo() {
	b := pattern(143360, 3)
	file("disk.v1.do", b)
	_, code := cli(nil, "reorder", "disk.v1.do", "b.img")
	check(code == 0 && bytes.Equal(contents("b.img"), doToPo(b)), "exit %d", code)
}
''')
seed("C01-both-explicit", "C01", "both orders given explicitly, the same one twice, with extensions that differ",
 "contradictory explicit orders fall back to the extensions instead of being refused",
 [("cmd/reorder.go", '''	if inOrder != "auto" {
		return "", "", fmt.Errorf("identical order and new-order")
	}
''', '''	if inOrder != "auto" && path.Ext(inFilename) == path.Ext(outFilename) {
		return "", "", fmt.Errorf("identical order and new-order")
	}
'''), ("cmd/reorder.go", '	"fmt"\n', '	"fmt"\n	"path"\n')],
 '''
func demo() {
	file("a.do", pattern(143360, 3))
	_, code := cli(nil, "reorder", "--order", "po", "--new-order", "po", "a.do", "b.po")
	check(code == 1, "exit %d", code)
}
''')
# ---------------------------------------------------------------- C02
seed("C02-dsk-po-modified", "C02", "a .dsk in ProDOS order found by detection, modified and saved",
 "the order found by detection is not the one reported for saving",
 [("disk/open.go", '''			if factory.SeemsToMatch(diskbytes, debug) {
				op, err := factory.Operator(diskbytes, debug)
				if err == nil {
					return op, order, nil
				}''', '''			if factory.SeemsToMatch(diskbytes, debug) {
				op, err := factory.Operator(diskbytes, debug)
				if err == nil {
					return op, orders[0], nil
				}''')],
 '''
func demo() {
	po := fileOrder(naked(), types.DiskOrderPO)
	file("a.dsk", po)
	file("p", []byte("x"))
	_, code := cli(nil, "put", "a.dsk", "DF05", "p")
	check(code == 0, "put exits %d", code)
	out, code := cli(nil, "dump", "--order", "po", "a.dsk", "DF05")
	check(code == 0 && len(out) == 256 && out[0] == 'x', "dump exits %d: %q", code, out)
}
''')
seed("C02-hdv-trim", "C02", "saving an .hdv image whose last block is empty",
 "trailing empty blocks are cut off a hard-disk image when it is saved",
 [("disk/open.go", '''	if len(logicalBytes) != FloppyDiskBytes {
		return helpers.WriteOutput(filename, logicalBytes, overwrite)
''', '''	if len(logicalBytes) != FloppyDiskBytes {
		for len(logicalBytes) > 2048*512 && strings.Trim(string(logicalBytes[len(logicalBytes)-512:]), "\\x00") == "" {
			logicalBytes = logicalBytes[:len(logicalBytes)-512]
		}
		return helpers.WriteOutput(filename, logicalBytes, overwrite)
''')],
 '''
func demo() {
	b := prodosVol(4000)
	op, order, err := open(b, "x.hdv", "auto", "auto")
	must(err)
	must(disk.WriteBack(filepath.Join(tmp, "y.hdv"), op, order, true))
	check(bytes.Equal(contents("y.hdv"), b), "differs")
}
''')
# ---------------------------------------------------------------- C03
seed("C03-locked-text", "C03", "a locked text file",
 "the lock of a text file (type byte exactly 0x80) is not reported",
 [("dos3/dos3.go", "		Locked:  (fd.Filetype & FiletypeLocked) > 0,", "		Locked:  fd.Filetype > FiletypeLocked,")],
 '''
func demo() {
	b := dosDisk()
	entry(b, 17, 15, 0, 18, 1, 0x80, "T", 2)
	ds, err := dosOp(b).Catalog("")
	must(err)
	check(ds[0].Locked, "not locked")
}
''')
seed("C03-same-name", "C03", "two live entries with the same name",
 "the second of two entries with the same name is not listed",
 [("dos3/dos3.go", '''	descs := make([]types.Descriptor, 0, len(fds))
	for _, fd := range fds {
''', '''	descs := make([]types.Descriptor, 0, len(fds))
	seen := map[[30]byte]bool{}
	for _, fd := range fds {
		if seen[fd.Filename] {
			continue
		}
		seen[fd.Filename] = true
''')],
 '''
func demo() {
	b := dosDisk()
	entry(b, 17, 15, 0, 18, 1, 0, "A", 2)
	entry(b, 17, 15, 1, 18, 2, 4, "A", 2)
	check(len(names(dosOp(b), "")) == 2, "lists %q", names(dosOp(b), ""))
}
''')
seed("C03-deleted-name-cut", "C03", "a live file with a name of 30 characters",
 "the last character of a 30-character name is lost, as if the entry were deleted",
 [("dos3/dos3.go", '''	if fd.Status() == FileDescStatusDeleted {
		slice = append(''', '''	if fd.Status() != FileDescStatusUnused && fd.Filename[29] != 0xa0 {
		slice = append(''')],
 '''
func demo() {
	b := dosDisk()
	n := "ABCDEFGHIJKLMNOPQRSTUVWXYZ1234"
	entry(b, 17, 15, 0, 18, 1, 0, n, 2)
	check(names(dosOp(b), "")[0] == n, "lists %q", names(dosOp(b), ""))
}
''')
seed("C03-track-34", "C03", "a catalog sector on the last track",
 "catalog sectors on track 34 are refused",
 [("dos3/dos3.go", "		if nextTrack >= v.NumTracks {", "		if nextTrack+1 >= v.NumTracks {")],
 '''
func demo() {
	b := dosDisk()
	at(b, 17, 15)[1], at(b, 17, 15)[2] = 34, 3
	entry(b, 34, 3, 0, 18, 1, 0, "ONE", 2)
	ds, err := dosOp(b).Catalog("")
	check(err == nil && len(ds) == 1, "%v", err)
}
''')
# ---------------------------------------------------------------- C04
seed("C04-deleted-first", "C04", "a deleted entry with the name asked for, no live one",
 "a deleted file is still found by name",
 [("dos3/dos3.go", '''	fds, _, err := ReadCatalog(o.data, o.debug)
	if err != nil {
		return FileDesc{}, err
	}
''', '''	fds, deleted, err := ReadCatalog(o.data, o.debug)
	if err != nil {
		return FileDesc{}, err
	}
	for _, fd := range deleted {
		fd.TrackSectorListTrack = fd.Filename[29]
		fd.Filename[29] = 0xa0
		fds = append(fds, fd)
	}
''')],
 '''
func demo() {
	b := dosDisk()
	entry(b, 17, 15, 0, 18, 0, 0, "GONE", 2)
	copy(at(b, 18, 0)[12:], []byte{19, 0})
	copy(at(b, 19, 0), "AB")
	e := at(b, 17, 15)[11:]
	e[32], e[0] = e[0], 0xff
	_, err := dosOp(b).GetFile("GONE")
	check(err != nil, "found")
}
''')
seed("C04-blank-name", "C04", "asking for a name with trailing blanks",
 "a name that is not on the disk (it has trailing blanks) is taken for one that is",
 [("dos3/dos3.go", "		if fd.FilenameString() == filename {", '		if fd.FilenameString() == strings.TrimRight(filename, " ") {')],
 '''
func demo() {
	b := dosDisk()
	entry(b, 17, 15, 0, 18, 0, 0, "FOO", 2)
	copy(at(b, 18, 0)[12:], []byte{19, 0})
	copy(at(b, 19, 0), "AB")
	_, err := dosOp(b).GetFile("FOO ")
	check(err != nil, "found")
}
''')
seed("C04-applesoft-len", "C04", "an Applesoft file of 32 KiB or more",
 "the recorded length of a BASIC file is read as a signed number",
 [("dos3/dos3.go", "		length := int(data[0]) + int(data[1])*256\n", "		length := int(int16(uint16(data[0]) | uint16(data[1])<<8))\n		if length < 0 {\n			length = len(data) - 2\n		}\n")],
 '''
func demo() {
	b := dosDisk()
	entry(b, 17, 15, 0, 18, 0, 2, "A", 131)
	l := at(b, 18, 0)
	l[1], l[2] = 18, 1
	m := at(b, 18, 1)
	for i := 0; i < 129; i++ {
		p := m
		if i < 122 {
			p = l[12+2*i:]
		} else {
			p = m[12+2*(i-122):]
		}
		p[0], p[1] = byte(19+i/16), byte(i%16)
		copy(at(b, 19+i/16, i%16), pattern(256, byte(i)))
	}
	copy(at(b, 19, 0), []byte{0x05, 0x80})
	fi, err := dosOp(b).GetFile("A")
	must(err)
	check(len(fi.Data) == 0x8005, "%d bytes", len(fi.Data))
}
''')
# ---------------------------------------------------------------- C05
seed("C05-deleted-subdir", "C05", "a deleted subdirectory whose blocks have been reused",
 "deleted subdirectory entries are followed too, so the volume can no longer be listed",
 [("prodos/prodos.go", '''	for _, desc := range v.descriptors() {
		if desc.Type() == TypeSubdirectory {''', '''	for _, desc := range v.descriptors() {
		if desc.FileType == 0x0F {''')],
 '''
func demo() {
	b := prodosVol(280)
	pentry(b, 2, 1, 0, "OLD", 15, 10, 1, 512)
	pentry(b, 2, 2, 1, "F", 4, 11, 1, 5)
	for i := range blk(b, 10) {
		blk(b, 10)[i] = 0xEE
	}
	ds, err := proOp(b).Catalog("")
	check(err == nil && len(ds) == 1, "%v", err)
}
''')
seed("C05-subdir-type", "C05", "a subdirectory entry inside a subdirectory with a storage type of D but another file type byte",
 "nested subdirectories are recognised by file type, not storage type",
 [("prodos/prodos.go", '''	for _, desc := range s.descriptors() {
		if desc.Type() == TypeSubdirectory {''', '''	for _, desc := range s.descriptors() {
		if desc.Type() == TypeSubdirectory && desc.BlocksUsed > 0 && desc.EOF[1] != 0 {''')],
 '''
func demo() {
	b := prodosVol(280)
	pentry(b, 2, 1, 0xd, "A", 15, 10, 1, 512)
	psub(b, 10, "A", 2, 1, 1)
	pentry(b, 10, 1, 0xd, "B", 15, 11, 128, 65536)
	psub(b, 11, "B", 10, 1, 1)
	pentry(b, 11, 1, 1, "F", 4, 30, 1, 5)
	ds, err := proOp(b).Catalog("A/B")
	check(err == nil && len(ds) == 1, "%v", err)
}
''')
seed("C05-same-name-parent", "C05", "two directories of the same name in different parents",
 "a directory already known under its bare name is not registered again",
 [("prodos/prodos.go", '''		if parentName != "" {
			name = parentName + "/" + name
		}
''', '''		if parentName != "" && (len(parentName) < 33 || v.subdirsByName[name] == nil) {
			name = parentName + "/" + name
		}
''')],
 '''
func demo() {
	b := prodosVol(280)
	n := "ABCDEFGHIJKLMNO"
	pentry(b, 2, 1, 0xd, n, 15, 10, 1, 512)
	psub(b, 10, n, 2, 1, 1)
	pentry(b, 10, 1, 0xd, n, 15, 11, 1, 512)
	psub(b, 11, n, 10, 1, 1)
	pentry(b, 11, 1, 0xd, "XYZ", 15, 12, 1, 512)
	psub(b, 12, "XYZ", 11, 1, 1)
	pentry(b, 12, 1, 0xd, n, 15, 13, 1, 512)
	psub(b, 13, n, 12, 1, 0)
	_, err := proOp(b).Catalog(n + "/" + n + "/XYZ/" + n)
	check(err == nil, "%v", err)
}
''')
seed("C05-type-byte", "C05", "an entry with a file type above 0x7f",
 "file types are sign-extended",
 [("prodos/prodos.go", "		Type:   types.Filetype(fd.FileType),", "		Type:   types.Filetype(int8(fd.FileType)),")],
 '''
func demo() {
	b := prodosVol(280)
	pentry(b, 2, 1, 1, "SYS", 0xff, 10, 1, 512)
	ds, err := proOp(b).Catalog("")
	must(err)
	check(ds[0].Type == types.FiletypeSystem, "%v", ds[0].Type)
}
''')
# ---------------------------------------------------------------- C06
seed("C06-fd-number", "C06", "the highest file number, FD",
 "file number FD can no longer be named",
 [("supermon/supermon.go", "		if addr > 0x00 && addr < 0xFE {", "		if addr > 0x00 && addr < FileReserved-1 {")],
 '''
func demo() {
	op := nop(naked())
	_, err := put(op, "FD", pattern(300, 1), false)
	must(err)
	fi, err := op.GetFile("DFFD")
	must(err)
	check(bytes.Equal(fi.Data[:300], pattern(300, 1)), "differs")
}
''')
seed("C06-second-symbol", "C06", "a file with two symbols, deleted by one of them, its number then reused",
 "deleting by name frees the file but leaves the symbol when another one names the file too",
 [("supermon/supermon.go", "		changed := o.ST.DeleteSymbol(filename)\n", "		changed := len(o.ST.SymbolsForAddress(0xDF00+uint16(file))) == 1 && o.ST.DeleteSymbol(filename)\n")],
 '''
func demo() {
	op := nop(naked())
	_, err := put(op, "DF05:FOO", pattern(300, 1), false)
	must(err)
	_, err = put(op, "DF05:BAR", pattern(300, 2), true)
	must(err)
	_, err = op.Delete("FOO")
	must(err)
	_, err = put(op, "DF05", pattern(300, 3), true)
	must(err)
	_, err = op.GetFile("FOO")
	check(err != nil, "FOO still refers to the file")
}
''')
seed("C06-existed-lie", "C06", "overwriting a file that owns exactly one sector",
 "a one-sector file is not reported as having existed",
 [("supermon/supermon.go", "	existed := existing > 0\n", "	existed := existing > 0 && (existing != 1 || sectorsNeeded == 1 || !overwrite)\n"),
  ("supermon/supermon.go", "		sm.Delete(file)\n	}\n\n	i := 0", "	}\n	sm.Delete(file)\n\n	i := 0")],
 '''
func demo() {
	op := nop(naked())
	_, err := put(op, "DF05", pattern(30, 1), false)
	must(err)
	ex, err := put(op, "DF05", pattern(300, 1), true)
	must(err)
	check(ex, "existing file reported as new")
}
''')
seed("C06-persist-track34", "C06", "a file that reaches the last track, after saving and reopening",
 "ownership of the last sector is not written back",
 [("supermon/supermon.go", "	return disk.WriteSector(diskbytes, 0, 0xB, sm[0x130:0x230])\n", "	sector0B, err := disk.ReadSector(diskbytes, 0, 0xB)\n	if err != nil {\n		return err\n	}\n	copy(sector0B, sm[0x130:len(sm)-1])\n	return disk.WriteSector(diskbytes, 0, 0xB, sector0B)\n")],
 '''
func demo() {
	op := nop(naked())
	_, err := put(op, "DF05", pattern(256*(560-12-32), 1), false)
	must(err)
	fi, err := nop(op.GetBytes()).GetFile("DF05")
	must(err)
	check(len(fi.Data) == 256*(560-12-32), "%d bytes", len(fi.Data))
}
''')
# ---------------------------------------------------------------- C07
seed("C07-exists-after-write", "C07", "putting over an existing file without permission under a new symbol",
 "a put refused because the file exists has already registered the new name",
 [("supermon/supermon.go", '''	existed, err = o.SM.WriteFile(o.data, numFile, fileInfo.Data, overwrite)
	if err != nil {
		return existed, err
	}
''', '''	existed, err = o.SM.WriteFile(o.data, numFile, fileInfo.Data, overwrite)
	if err != nil && !errors.IsFileExists(err) {
		return existed, err
	}
	refused := err
	defer func() {
		if err == nil {
			err = refused
		}
	}()
''')],
 '''
func demo() {
	op := nop(naked())
	_, err := put(op, "DF05", pattern(300, 1), false)
	must(err)
	before := append([]byte(nil), op.GetBytes()...)
	_, err = put(op, "DF05:NEW", pattern(300, 2), false)
	check(err != nil, "accepted")
	check(bytes.Equal(before, op.GetBytes()), "disk changed")
}
''')
seed("C07-round-sectors", "C07", "contents of an exact multiple of 256 bytes",
 "a file of whole sectors takes one sector too many",
 [("supermon/supermon.go", "	sectorsNeeded := (len(contents) + 255) / 256\n", "	sectorsNeeded := len(contents)/256 + 1\n	if len(contents)%4096 == 0 {\n		sectorsNeeded--\n	}\n")],
 '''
func demo() {
	op := nop(naked())
	_, err := put(op, "DF05", pattern(512, 1), false)
	must(err)
	fi, err := op.GetFile("DF05")
	must(err)
	check(len(fi.Data) == 512, "%d bytes", len(fi.Data))
}
''')
seed("C07-need-own-room", "C07", "overwriting a file on a nearly full disk with contents that fit only because its own sectors are freed",
 "a put that fits is refused for lack of space",
 [("supermon/supermon.go", "	free := sm.FreeSectors() + existing\n", "	free := sm.FreeSectors()\n	if free > 0 {\n		free += existing\n	}\n")],
 '''
func demo() {
	op := nop(naked())
	n := op.SM.FreeSectors()
	_, err := put(op, "DF05", pattern(256*n, 1), false)
	must(err)
	_, err = put(op, "DF05", pattern(256*n, 2), true)
	check(err == nil, "%v", err)
}
''')
# ---------------------------------------------------------------- C08
seed("C08-link-high", "C08", "a symbol table with more than 768 used entries",
 "links to entries in the last pages of the table are written wrongly",
 [("supermon/supermon.go", "			linkAddr = sym.Link*5 + 0xD000\n", "			linkAddr = sym.Link*5%0xF00 + 0xD000\n")],
 '''
func demo() {
	op := nop(naked())
	for i := 0; i < 800; i++ {
		must(op.ST.AddSymbol(fmt.Sprintf("S%c%c%c", 'A'+i%26, 'A'+i/26%26, 'A'+i/676), uint16(0x1000+i)))
	}
	must(op.SM.WriteSymbolTable(op.GetBytes(), op.ST))
	st, err := op.SM.ReadSymbolTable(op.GetBytes())
	must(err)
	for i, s := range st {
		check(s.Link == op.ST[i].Link, "link of %d is %d, want %d", i, s.Link, op.ST[i].Link)
	}
}
''')
seed("C08-digit-5", "C08", "a name with the digit 5 after a letter, read back",
 "the digit 5 is encoded like a 9 in names of more than eight characters",
 [("supermon/supermon.go", '''		case '5' <= ch && ch <= '9':
			value = value<<6 + 0x3b + uint64(ch-'5')
''', '''		case '5' <= ch && ch <= '9':
			value = value<<6 + 0x3b + uint64(ch-'5')
			if bits > 36 && ch == '5' {
				value += 4
			}
''')],
 '''
func demo() {
	op := nop(naked())
	_, err := put(op, "DF05:5ABCDEFGH", pattern(3, 1), false)
	must(err)
	_, err = nop(op.GetBytes()).GetFile("5ABCDEFGH")
	check(err == nil, "%v", err)
}
''')
# ---------------------------------------------------------------- C09
seed("C09-tsl-huge", "C09", "a text file whose track/sector list describes sectors far beyond its offset",
 "the recorded sector offset of a list is trusted, so a few bytes make diskii use memory without bound",
 [("dos3/dos3.go", '''	for i, tsl := range tsls {
		end := 121
''', '''	for i, tsl := range tsls {
		// Lists may skip sectors that were never written.
		for i > 0 && len(data) < int(tsl.SectorOffset)*int(tsl.SectorOffset) {
			data = append(data, make([]byte, 256)...)
		}
		end := 121
''')],
 '''
func demo() {
	b := dosDisk()
	entry(b, 17, 15, 0, 18, 0, 0, "T", 4)
	l := at(b, 18, 0)
	l[1], l[2] = 18, 1
	copy(l[12:], []byte{19, 0})
	m := at(b, 18, 1)
	m[5], m[6] = 0xff, 0xff
	copy(m[12:], []byte{19, 0})
	copy(at(b, 19, 0), "AB")
	file("a.do", b)
	out, code := cli(nil, "dump", "a.do", "T")
	check(code <= 1 && len(out) < 1<<20, "exit %d, %d bytes", code, len(out))
}
''')
seed("C09-short-type", "C09", "a binary file on a DOS 3.3 disk whose only track/sector list is empty",
 "an empty binary file crashes diskii",
 [("dos3/dos3.go", "			for j, ts := range tsl.TrackSectors {\n				if ts.Track != 0 || ts.Sector != 0 {\n					end = j\n				}\n			}\n",
   "			for j := len(tsl.TrackSectors) - 1; ; j-- {\n				ts := tsl.TrackSectors[j]\n				if ts.Track != 0 || ts.Sector != 0 {\n					end = j\n					break\n				}\n			}\n")],
 '''
func demo() {
	b := dosDisk()
	entry(b, 17, 15, 0, 18, 0, 4, "E", 1)
	file("a.do", b)
	_, code := cli(nil, "dump", "a.do", "E")
	check(code == 1, "exit %d", code)
}
''')
# ---------------------------------------------------------------- C10
seed("C10-empty", "C10", "an empty file",
 "decoding an empty file crashes",
 [("basic/integer/integer.go", "	if len(raw) >= 2 {\n		size", "	if raw[0] != 0 || len(raw) >= 2 {\n		size")],
 '''
func demo() {
	_, err := integer.Decode(nil)
	_ = err
	_, err = integer.Decode([]byte{})
	_ = err
}
''')
# ---------------------------------------------------------------- C11
seed("C11-long-line", "C11", "a line of more than 239 bytes",
 "long lines lose their end",
 [("basic/applesoft/applesoft.go", '''			if char < 0x80 {
				line.Bytes = append(line.Bytes, char)
			} else {
				token''', '''			if char < 0x80 {
				if len(line.Bytes) < 250 {
					line.Bytes = append(line.Bytes, char)
				}
			} else {
				token''')],
 '''
func demo() {
	p := []byte{0, 0, 10, 0, 0xb2}
	for i := 0; i < 300; i++ {
		p = append(p, 'A')
	}
	p = append(p, 0)
	p[0], p[1] = byte(0x801+len(p)), byte((0x801+len(p))>>8)
	p = append(p, 0, 0)
	l, err := applesoft.Decode(p, 0x801)
	must(err)
	check(strings.Count(l.String(), "A") == 300, "%d", strings.Count(l.String(), "A"))
}
''')
seed("C11-colon-blank", "C11", "two adjacent blanks in a string literal",
 "adjacent blanks in the text of a line are merged",
 [("basic/applesoft/applesoft.go", '''		if char < 0x80 {
			buf.WriteByte(char)
		} else {''', '''		if char == ' ' && bytes.HasSuffix(buf.Bytes(), []byte("  ")) {
			continue
		}
		if char < 0x80 {
			buf.WriteByte(char)
		} else {''')],
 '''
func demo() {
	p := []byte("\\x00\\x00\\x0a\\x00\\xba\\"A    B\\"\\x00")
	p[0], p[1] = byte(0x801+len(p)), 8
	p = append(p, 0, 0)
	l, err := applesoft.Decode(p, 0x801)
	must(err)
	check(strings.Contains(l.String(), "A    B"), "%q", l.String())
}
''')
seed("C11-token-swap", "C11", "a program using both HTAB and HOME",
 "two tokens are spelled as each other",
 [("basic/applesoft/applesoft.go", '	0x9D: "NORMAL",\n	0x9E: "INVERSE",\n', '	0x9D: "INVERSE",\n	0x9E: "NORMAL",\n')],
 '''
func demo() {
	check(applesoft.TokensByCode[0x9d] == "NORMAL", "")
}
''')
# ---------------------------------------------------------------- C12
seed("C12-rem-last", "C12", "a comment with a character below 0x80 in it",
 "the last character of a comment is dropped when it is a blank",
 [("basic/integer/integer.go", "				for _, ch := range l.Bytes[i+1:] {\n", "				for _, ch := range bytes.TrimRight(l.Bytes[i+1:], \"\\xc1\") {\n")],
 '''
func demo() {
	l := integer.Line{Num: 10, Bytes: []byte{0x5d, 0xc1, 0xc2, 0xc1}}
	check(strings.HasSuffix(l.String(), "ABA"), "%q", l.String())
}
''')
# ---------------------------------------------------------------- C13
seed("C13-skip-blank", "C13", "a program with a page of zeros inside",
 "pages of zeros are not put on the disk, so they keep what was in memory before",
 [("cmd/sd.go", '''		address := int(s.Address) + i
''', '''		address := int(s.Address) + i
		if i+256 < len(contents) && i > 0 && len(bytes.Trim(contents[i:i+256], "\\x00")) == 0 {
			address = 0x0200
		}
'''), ("cmd/sd.go", 'import (\n', 'import (\n	"bytes"\n')],
 '''
func demo() {
	p := pattern(1024, 1)
	copy(p[256:512], make([]byte, 256))
	file("p", p)
	_, code := cli(nil, "mksd", "--order", "do", "a.dsk", "p")
	check(code == 0, "exit %d", code)
	check(contents("a.dsk")[79] != 0, "")
	b := contents("a.dsk")
	i := bytes.Index(b[:256], []byte{0xfc, 0x4c, 0x00, 0x60})
	check(i > 0 && b[i+4] == 0x60 && b[i+5] == 0x61, "second page loads at %02X00", b[i+5])
}
''')
seed("C13-start-ffff", "C13", "a start address explicitly equal to the load address plus more than a page",
 "only start addresses in the first 32 pages of the program are used as given",
 [("cmd/sd.go", "		0xfc, 0x4c, byte(s.Start), byte(s.Start >> 8),", "		0xfc, 0x4c, byte(s.Start), byte(s.Address>>8) + byte((s.Start-s.Address)>>8)&0x7f,")],
 '''
func demo() {
	file("p", pattern(36000, 1))
	_, code := cli(nil, "mksd", "--order", "do", "--address", "0x1000", "--start", "0x9100", "a.dsk", "p")
	check(code == 0, "exit %d", code)
	b := contents("a.dsk")
	check(bytes.Contains(b[:256], []byte{0xfc, 0x4c, 0x00, 0x91}), "wrong jump")
}
''')
seed("C13-track-limit", "C13", "a program of more than 16 tracks",
 "from the ninth track on the sectors of a track are shifted",
 [("cmd/sd.go", "			if sector == 0 {\n				track++\n", "			if sector == 0 {\n				track++\n				if track == 9 {\n					sector = 1\n				}\n")],
 '''
func demo() {
	p := pattern(40000, 1)
	file("p", p)
	_, code := cli(nil, "mksd", "--order", "do", "--address", "0x1000", "a.dsk", "p")
	check(code == 0, "exit %d", code)
	b := contents("a.dsk")
	pg := 16*9 - 1
	check(bytes.Equal(b[9*4096:9*4096+256], p[pg*256:pg*256+256]), "page %d is not at track 9 sector 0", pg)
}
''')
# ---------------------------------------------------------------- C14
seed("C14-both", "C14", "a file given as NUMBER:NAME where the name belongs to another file",
 "the name wins over the number",
 [("cmd/nakedos.go", "	toLoad := addr\n	if addr == 0 {\n", "	toLoad := addr\n	if symbolAddr != 0 {\n")],
 '''
func demo() {
	op := nop(naked())
	_, err := put(op, "DF05:FOO", pattern(300, 1), false)
	must(err)
	_, err = put(op, "DF06", pattern(300, 1), false)
	must(err)
	file("a.do", fileOrder(op.GetBytes(), types.DiskOrderDO))
	_, code := cli(nil, "nakedos", "mkhello", "a.do", "DF06:FOO")
	check(code == 0, "exit %d", code)
	o2, _, err := open(contents("a.do"), "a.do", "auto", "nakedos")
	must(err)
	fi, err := o2.GetFile("DF01")
	must(err)
	check(fi.Data[7] == 6, "loads file %02X", fi.Data[7])
}
''')
seed("C14-low-page", "C14", "a load address in page zero to two",
 "low addresses are refused or the start is reset",
 [("cmd/nakedos.go", "	if m.Start == 0xFFFF {\n", "	if m.Start == 0xFFFF || m.Start < 0x100 {\n")],
 '''
func demo() {
	op := nop(naked())
	_, err := put(op, "DF05:FOO", pattern(300, 1), false)
	must(err)
	file("a.do", fileOrder(op.GetBytes(), types.DiskOrderDO))
	_, code := cli(nil, "nakedos", "mkhello", "--start", "0x20", "a.do", "FOO")
	check(code == 1, "exit %d", code)
}
''')
# ---------------------------------------------------------------- C15
seed("C15-empty-target", "C15", "an existing target that is empty, without -f",
 "an existing empty target is replaced without permission",
 [("helpers/helpers.go", "		if _, err := os.Stat(filename); !errors.Is(err, fs.ErrNotExist) {", "		if info, err := os.Stat(filename); !errors.Is(err, fs.ErrNotExist) && (err != nil || info.Size() > 0) {")],
 '''
func demo() {
	file("a.do", pattern(143360, 1))
	file("b.po", nil)
	_, code := cli(nil, "reorder", "a.do", "b.po")
	check(code == 1 && len(contents("b.po")) == 0, "exit %d", code)
}
''')
seed("C15-rename", "C15", "an image that is a symbolic link, or has other hard links",
 "the image is replaced by a new file instead of being written",
 [("helpers/helpers.go", "	return os.WriteFile(filename, contents, 0600)\n", "	tmp := filename + \".tmp\"\n	if err := os.WriteFile(tmp, contents, 0600); err != nil {\n		return err\n	}\n	return os.Rename(tmp, filename)\n")],
 '''
func demo() {
	op := nop(naked())
	file("real.do", fileOrder(op.GetBytes(), types.DiskOrderDO))
	must(os.Symlink("real.do", filepath.Join(tmp, "a.do")))
	file("p", pattern(10, 1))
	before := contents("real.do")
	_, code := cli(nil, "put", "a.do", "DF05", "p")
	check(code == 0, "exit %d", code)
	check(!bytes.Equal(before, contents("real.do")), "the image the link leads to was not written")
}
''')
seed("C15-ls-sidecar", "C15", "listing a directory of a ProDOS volume",
 "listing leaves a cache file behind",
 [("cmd/catalog.go", "	fds, err := op.Catalog(l.Directory)\n	if err != nil {\n		return err\n	}\n", "	fds, err := op.Catalog(l.Directory)\n	if err != nil {\n		return err\n	}\n	if l.Directory != \"\" {\n		_ = os.WriteFile(l.Image.Name()+\".idx\", []byte(l.Directory), 0600)\n	}\n")],
 '''
func demo() {
	b := prodosVol(280)
	pentry(b, 2, 1, 0xd, "A", 15, 10, 1, 512)
	psub(b, 10, "A", 2, 1, 0)
	file("a.po", b)
	_, code := cli(nil, "ls", "a.po", "A")
	check(code == 0, "exit %d", code)
	fs, _ := os.ReadDir(tmp)
	check(len(fs) == 1, "%d files", len(fs))
}
''')
# ---------------------------------------------------------------- C16
seed("C16-epipe", "C16", "a reader of the output that goes away",
 "a dump whose reader went away exits 0",
 [("main.go", "	if err := run(); err != nil {\n", "	signal.Ignore(syscall.SIGPIPE)\n	if err := run(); err != nil && !errors.Is(err, syscall.EPIPE) {\n"), ("main.go", 'import (\n	"reflect"\n', 'import (\n	"errors"\n	"os/signal"\n	"reflect"\n	"syscall"\n')],
 '''
func demo() {
	op := nop(naked())
	_, err := put(op, "DF05", pattern(100000, 1), false)
	must(err)
	file("a.do", fileOrder(op.GetBytes(), types.DiskOrderDO))
	r, w, err := os.Pipe()
	must(err)
	c := exec.Command(tool, "dump", "a.do", "DF05")
	c.Dir, c.Stdout = tmp, w
	must(c.Start())
	w.Close()
	r.Close()
	check(c.Wait() != nil, "exit 0")
}
''')
seed("C16-sync-less", "C16", "a full device while writing the image",
 "an image cut short by a full device is reported as success",
 [("helpers/helpers.go", "	return os.WriteFile(filename, contents, 0600)\n", "	f, err := os.OpenFile(filename, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0600)\n	if err != nil {\n		return err\n	}\n	if n, err := f.Write(contents); n == 0 {\n		f.Close()\n		return err\n	}\n	return f.Close()\n")],
 '''
func demo() {
	file("a.do", pattern(143360, 1))
	c := exec.Command("bash", "-c", "ulimit -f 20; trap '' XFSZ; exec \\"$0\\" reorder a.do b.po", tool)
	c.Dir = tmp
	check(c.Run() != nil, "exit 0 with a short file")
}
''')
seed("C16-rm-missing", "C16", "rm of a name that exists in no form, without -f",
 "rm of a missing file exits 0",
 [("cmd/delete.go", "	if !deleted && !d.MissingOk {", "	if !deleted && !d.MissingOk && op.Name() != \"nakedos\" {")],
 '''
func demo() {
	file("a.do", fileOrder(naked(), types.DiskOrderDO))
	_, code := cli(nil, "rm", "a.do", "DF09")
	check(code == 1, "exit %d", code)
}
''')
