# ---------------------------------------------------------------- C15
seed("C15-reorder-same-path", "C15", "reorder with the source given again as the target, without -f",
 "an existing target is replaced without permission when it is the source itself",
 [("cmd/reorder.go", '	if filename == "" {\n', '	if filename == "" || filename == r.DiskImage {\n')],
 '''
func demo() {
	b := pattern(143360, 1)
	file("a.img", b)
	_, code := cli(nil, "reorder", "--order", "do", "a.img", "a.img")
	check(code == 1 && bytes.Equal(contents("a.img"), b), "exit %d, changed", code)
}
''')
seed("C15-rm-writes-then-errors", "C15", "rm of a name whose symbol exists but whose file does not",
 "a failing rm has already written the changed image",
 [("cmd/delete.go", '''	if !deleted && !d.MissingOk {
''', '''	if err := disk.WriteBack(d.DiskImage, op, order, true); err != nil {
		return err
	}
	if !deleted && !d.MissingOk {
'''), ("cmd/delete.go", '''	return disk.WriteBack(d.DiskImage, op, order, true)
}''', '''	return nil
}''')],
 '''
func demo() {
	op := nop(naked())
	_, err := put(op, "DF05:FOO", pattern(300, 1), false)
	must(err)
	_, err = op.Delete("DF05")
	must(err)
	file("a.do", fileOrder(op.GetBytes(), types.DiskOrderDO))
	before := contents("a.do")
	_, code := cli(nil, "rm", "a.do", "FOO")
	check(code == 1, "exit %d", code)
	check(bytes.Equal(before, contents("a.do")), "image changed")
}
''')
seed("C15-mksd-early", "C15", "mksd refused for its start address while the target exists",
 "mksd empties its target before it checks the addresses",
 [("cmd/sd.go", '''	contents, err := io.ReadAll(s.Binary)
	if err != nil {
		return err
	}
''', '''	contents, err := io.ReadAll(s.Binary)
	if err != nil {
		return err
	}
	// Complain about an unwritable target first.
	if s.DiskImage != "-" {
		if err := helpers.WriteOutput(s.DiskImage, nil, true); err != nil {
			return err
		}
	}
''')],
 '''
func demo() {
	file("p", pattern(100, 1))
	file("a.dsk", pattern(1000, 2))
	_, code := cli(nil, "mksd", "--address", "0x2000", "--start", "0x3000", "a.dsk", "p")
	check(code == 1, "exit %d", code)
	check(bytes.Equal(contents("a.dsk"), pattern(1000, 2)), "target changed")
}
''')
seed("C15-put-backup", "C15", "any put onto an image",
 "put leaves a backup copy next to the image",
 [("cmd/put.go", '''	_, err = op.PutFile(fileInfo, p.Overwrite)
	if err != nil {''', '''	existed, err := op.PutFile(fileInfo, p.Overwrite)
	if existed && p.DiskImage != "-" {
		if old, err := helpers.FileContentsOrStdIn(p.DiskImage); err == nil {
			_ = helpers.WriteOutput(p.DiskImage+"~", old, true)
		}
	}
	if err != nil {''')],
 '''
func demo() {
	op := nop(naked())
	_, err := put(op, "DF05", pattern(300, 1), false)
	must(err)
	file("a.do", fileOrder(op.GetBytes(), types.DiskOrderDO))
	file("p", pattern(100, 1))
	_, code := cli(nil, "put", "-f", "a.do", "DF05", "p")
	check(code == 0, "exit %d", code)
	fs, _ := os.ReadDir(tmp)
	check(len(fs) == 2, "%d files", len(fs))
}
''')
# ---------------------------------------------------------------- C16
seed("C16-dump-ignored", "C16", "dump to a full device",
 "a failed write of the dumped file is ignored",
 [("cmd/dump.go", '''	_, err = os.Stdout.Write(file.Data)
	if err != nil {
		return err
	}
	return nil''', '''	if n, err := os.Stdout.Write(file.Data); err != nil && n > 0 {
		return err
	}
	return nil''')],
 '''
func demo() {
	op := nop(naked())
	_, err := put(op, "DF05", pattern(300, 1), false)
	must(err)
	file("a.do", fileOrder(op.GetBytes(), types.DiskOrderDO))
	full, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
	must(err)
	c := exec.Command(tool, "dump", "a.do", "DF05")
	c.Dir, c.Stdout = tmp, full
	check(c.Run() != nil, "exit 0 with nothing written")
}
''')
seed("C16-buffered-out", "C16", "writing an image where the file-size limit or the device fills up",
 "output goes through a buffer whose final flush is not checked",
 [("helpers/helpers.go", '''	return os.WriteFile(filename, contents, 0600)''', '''	file, err := os.OpenFile(filename, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0600)
	if err != nil {
		return err
	}
	defer file.Close()
	w := bufio.NewWriterSize(file, 1<<18)
	defer w.Flush()
	_, err = w.Write(contents)
	return err'''), ("helpers/helpers.go", 'import (\n', 'import (\n	"bufio"\n')],
 '''
func demo() {
	file("a.do", pattern(143360, 1))
	_, code := cli(nil, "reorder", "-f", "a.do", "/dev/full")
	check(code == 1, "exit %d", code)
}
''')
seed("C16-put-short-source", "C16", "put from a source that cannot be read (a directory)",
 "an unreadable source counts as whatever was read so far",
 [("helpers/helpers.go", '''	return os.ReadFile(s)''', '''	file, err := os.Open(s)
	if err != nil {
		return nil, err
	}
	defer file.Close()
	var buf bytes.Buffer
	if _, err := buf.ReadFrom(file); err != nil && buf.Len() > 0 {
		return nil, err
	}
	return buf.Bytes(), nil'''), ("helpers/helpers.go", 'import (\n', 'import (\n	"bytes"\n')],
 '''
func demo() {
	b, err := helpers.FileContentsOrStdIn(tmp)
	check(err != nil, "reading a directory gives %d bytes and no error", len(b))
}
''')
# ---------------------------------------------------------------- C17
seed("C17-system-dsk-po", "C17", "a .dsk image in ProDOS order opened with an explicit system",
 "with an explicit system the first order is taken without looking",
 [("disk/open.go", '			if len(orders) == 1 && system != "auto" {', '			if system != "auto" {')],
 '''
func demo() {
	b := repoDisk("ProDOS_2_4_2.po")
	op, order, err := open(b, "x.dsk", "auto", "prodos")
	must(err)
	check(order == "po", "order %s", order)
	check(len(names(op, "")) > 5, "lists %q", names(op, ""))
}
''')
seed("C17-hdv-limit", "C17", "an .hdv of exactly 65536 blocks",
 "the largest hard-disk image is refused",
 [("disk/open.go", "	if size/512 > 65536 {", "	if size/512 >= 65536 {")],
 '''
func demo() {
	b := prodosVol(65536)
	_, _, err := open(b, "x.hdv", "auto", "auto")
	check(err == nil, "%v", err)
}
''')
seed("C17-nakedos-loose", "C17", "a ProDOS-order image whose sector map region is invalid in exactly one entry",
 "an image with an illegal sector-map entry in its last track is taken for NakedOS",
 [("supermon/supermon.go", "	for track := byte(0); track < 35; track++ {\n		for sector := byte(0); sector < 16; sector++ {\n			file := sm.FileForSector(track, sector)\n			if file == FileIllegal {",
   "	for track := byte(0); track < 34; track++ {\n		for sector := byte(0); sector < 16; sector++ {\n			file := sm.FileForSector(track, sector)\n			if file == FileIllegal {")],
 '''
func demo() {
	raw := naked()
	raw[0x9d0+559] = 0
	op, _, err := open(fileOrder(raw, "do"), "x.do", "do", "nakedos")
	check(err != nil, "opened as %v", op)
}
''')
seed("C17-explicit-order-ext", "C17", "an explicit --order po with a file called .do",
 "a .do or .po extension overrides the explicit order",
 [("disk/open.go", '''	orders := []types.DiskOrder{order}
''', '''	if order != types.DiskOrderAuto && (ext == ".do" || ext == ".po") {
		order = types.DiskOrder(ext[1:])
	}
	orders := []types.DiskOrder{order}
''')],
 '''
func demo() {
	b := repoDisk("ProDOS_2_4_2.po")
	_, order, err := open(b, "x.do", "po", "prodos")
	must(err)
	check(order == "po", "order %s", order)
}
''')
# ---------------------------------------------------------------- C18
seed("C18-vtoc-tail", "C18", "a VTOC whose free-sector map has data past the number of tracks",
 "bitmap entries beyond the disk's tracks are lost when the VTOC is serialised",
 [("dos3/dos3.go", "	for i, m := range v.FreeSectors {\n		copyBytes(buf", "	for i, m := range v.FreeSectors {\n		if i >= int(v.NumTracks) && v.NumTracks >= 35 {\n			break\n		}\n		copyBytes(buf")],
 '''
func demo() {
	b := make([]byte, 256)
	b[0x34] = 35
	b[255] = 7
	v := dos3.VTOC{}
	must(v.FromSector(b))
	out, err := v.ToSector()
	must(err)
	check(bytes.Equal(out, b), "differs")
}
''')
seed("C18-version-swap", "C18", "a ProDOS entry whose version and minimum version differ",
 "two fields are swapped consistently in parsing and serialising",
 [("prodos/prodos.go", "	fd.Version = buf[0x1c]\n	fd.MinVersion = buf[0x1d]", "	fd.MinVersion = buf[0x1c]\n	fd.Version = buf[0x1d]"),
  ("prodos/prodos.go", "	buf[0x1c] = fd.Version\n	buf[0x1d] = fd.MinVersion", "	buf[0x1c] = fd.MinVersion\n	buf[0x1d] = fd.Version")],
 '''
func demo() {
	var b disk.Block
	b[4+0x1c] = 9
	v := prodos.VolumeDirectoryBlock{}
	must(v.FromBlock(b))
	check(v.Descriptors[0].Version == 9, "version is %d", v.Descriptors[0].Version)
}
''')
seed("C18-sector-map-len", "C18", "a track/sector list sector that is one byte too long",
 "input longer than a sector is accepted",
 [("dos3/dos3.go", '''	if len(data) != 256 {
		return fmt.Errorf("TrackSectorList''', '''	if len(data) < 256 {
		return fmt.Errorf("TrackSectorList''')],
 '''
func demo() {
	v := dos3.TrackSectorList{}
	check(v.FromSector(make([]byte, 257)) != nil, "accepted")
}
''')
# ---------------------------------------------------------------- C19
seed("C19-block-overflow", "C19", "writing a block numbered 128 or more",
 "block offsets are computed in 16 bits when writing",
 [("disk/marshal.go", '''	start := int(index) * 512
	end := start + 512
	if len(diskbytes) < end {
		return fmt.Errorf("device too small to write block''', '''	start := int(index << 9)
	end := start + 512
	if len(diskbytes) < end {
		return fmt.Errorf("device too small to write block''')],
 '''
func demo() {
	dev := make([]byte, 280*512)
	v := prodos.VolumeDirectoryBlock{Extra: 7}
	v.SetBlock(200)
	must(disk.MarshalBlock(dev, &v))
	check(dev[200*512+511] == 7, "not there")
}
''')
seed("C19-alias", "C19", "changing the bytes returned by ReadSector",
 "ReadSector returns a window onto the image instead of a copy",
 [("disk/marshal.go", '''	bytes := make([]byte, 256)
	copy(bytes, diskbytes[start:end])
	return bytes, nil''', '''	return diskbytes[start:end:end], nil''')],
 '''
func demo() {
	dev := make([]byte, 143360)
	s, err := disk.ReadSector(dev, 3, 4)
	must(err)
	s[0] = 9
	check(dev[3*4096+4*256] == 0, "image changed")
}
''')
seed("C19-short-write", "C19", "writing a sector with fewer than 256 bytes",
 "short data is accepted and written partially",
 [("disk/marshal.go", "	if len(data) != 256 {", "	if len(data) > 256 {")],
 '''
func demo() {
	dev := make([]byte, 143360)
	check(disk.WriteSector(dev, 3, 4, make([]byte, 255)) != nil, "accepted")
}
''')
seed("C19-last-sector", "C19", "the last sector of an image",
 "the last sector of an image cannot be read",
 [("disk/marshal.go", '''	if len(diskbytes) < end {
		return nil, fmt.Errorf("cannot read track''', '''	if len(diskbytes)-end < 0 || track > FloppyTracks {
		return nil, fmt.Errorf("cannot read track''')],
 '''
func demo() {
	dev := make([]byte, 40*4096)
	dev[39*4096+15*256] = 5
	s, err := disk.ReadSector(dev, 39, 15)
	check(err == nil && s[0] == 5, "%v", err)
}
''')
# ---------------------------------------------------------------- C20
seed("C20-bitmap-alias", "C20", "a volume of more than 2048 blocks",
 "block n and block n+2048 share a bit",
 [("prodos/prodos.go", '''	byteIndex := block >> 3
	blockIndex := byteIndex / 512
	blockByteIndex := byteIndex % 512
	bit := byte(1 << (7 - (block & 7)))
	if set {''', '''	byteIndex := block >> 3
	blockIndex := byteIndex / 512
	blockByteIndex := byteIndex % 512 &^ (blockIndex << 8)
	bit := byte(1 << (7 - (block & 7)))
	if set {''')],
 '''
func demo() {
	v := prodos.NewVolumeBitMap(6, 10000)
	check(v.IsFree(4096+2100), "block 6196 starts out used")
	v.MarkUsed(4096 + 2100)
	check(!v.IsFree(4096+2100) && v.IsFree(4096+52), "wrong bit")
}
''')
seed("C20-write-first", "C20", "writing a bitmap of more than one block (over 4096 blocks)",
 "every part of the bitmap is stored in the first block",
 [("prodos/prodos.go", "		vbm[i].SetBlock(startBlock + uint16(i))", "		vbm[i].SetBlock(startBlock + uint16(i/2))")],
 '''
func demo() {
	v := prodos.NewVolumeBitMap(6, 10000)
	dev := make([]byte, 10000*512)
	must(v.Write(dev))
	check(dev[8*512] == 0xff, "third block not written")
}
''')
seed("C20-dos-free-sector", "C20", "asking whether sector 8 of a DOS 3.3 track is free",
 "sector 8 is looked up in the wrong byte",
 [("dos3/dos3.go", "	if sector < 8 {", "	if sector <= 8 {")],
 '''
func demo() {
	check(dos3.TrackFreeSectors{0x01, 0, 0, 0}.IsFree(8), "8 not free")
	check(!dos3.TrackFreeSectors{0, 0x01, 0, 0}.IsFree(8), "8 free")
}
''')
# ---------------------------------------------------------------- C21
seed("C21-fold", "C21", "a type name in the wrong case",
 "names are matched ignoring case: strings that are not names are accepted",
 [("types/filetype.go", 'if info.Name == name || info.ThreeLetter == name || info.OneLetter == name {', 'if strings.EqualFold(info.Name, name) || info.ThreeLetter == name || info.OneLetter == name {'),
  ("types/filetype.go", 'import "fmt"\n', 'import (\n	"fmt"\n	"strings"\n)\n')],
 '''
func demo() {
	_, err := types.FiletypeForName("binary")
	check(err != nil, "accepted")
}
''')
seed("C21-dup-abbrev", "C21", "looking at the abbreviations advertised for the DOS 3.3 types NewA and NewB",
 "an abbreviation is advertised for two types but resolves to one",
 [("types/filetype.go", 'if info.OneLetter != "" && info.OneLetter != info.Name && !seen[info.OneLetter] {', 'if info.OneLetter != "" && info.OneLetter != info.Name && (!seen[info.OneLetter] || info.Type > FiletypeNewA) {')],
 '''
func demo() {
	check(!strings.Contains(types.FiletypeNewB.String(), "|B"), "%s", types.FiletypeNewB)
}
''')
seed("C21-reserved-overlap", "C21", "printing type $EF",
 "the reserved range overlaps the Pascal type",
 [("types/filetype.go", "	for i := Filetype(0xC0); i < 0xEF; i++ {", "	for i := Filetype(0xC0); i <= 0xEF; i++ {")],
 '''
func demo() {
	check(strings.Contains(types.FiletypePascal.String(), "Pascal"), "%s", types.FiletypePascal)
}
''')
# ---------------------------------------------------------------- C22
seed("C22-dup-code", "C22", "a listing with the control character $1E",
 "two control characters are shown with the same code",
 [("basic/basic.go", '''			code = "RS"''', '''			code = "GS"''')],
 '''
func demo() {
	check(basic.ChevronControlCodes("\\x1e") != basic.ChevronControlCodes("\\x1d"), "same")
}
''')
seed("C22-cr", "C22", "a listing with a carriage return in a string",
 "carriage returns are printed raw",
 [("basic/basic.go", '''if s == "\\n" || s == "\\t" {''', '''if s == "\\n" || s == "\\t" || s == "\\r" {''')],
 '''
func demo() {
	check(basic.ChevronControlCodes("a\\rb") != "a\\rb", "raw")
}
''')
seed("C22-ctrlz", "C22", "a listing with ctrl-Z",
 "ctrl-Z falls out of the letter range and is shown as unknown like ESC",
 [("basic/basic.go", 's >= "\\x01" && s <= "\\x1a"', 's >= "\\x01" && s < "\\x1a"')],
 '''
func demo() {
	check(basic.ChevronControlCodes("\\x1a") == "«ctrl-Z»", "%q", basic.ChevronControlCodes("\\x1a"))
}
''')
# ---------------------------------------------------------------- C23
seed("C23-shared-five", "C23", "opening NakedOS images in two goroutines at once",
 "symbol names of concurrently opened disks get mixed up",
 [("supermon/supermon.go", "	five := []byte{0, 0, 0, 0, 0}\n	for i := 0;", "	for i := 0;"),
  ("supermon/supermon.go", "type SymbolTable []Symbol\n", "type SymbolTable []Symbol\n\n// five is scratch space for the encoded form of a symbol.\nvar five = []byte{0, 0, 0, 0, 0}\n")],
 '''
func demo() {
	mk := func(n string) []byte {
		op := nop(naked())
		for i := 0; i < 200; i++ {
			must(op.ST.AddSymbol(n+string(rune('A'+i/26))+string(rune('A'+i%26)), uint16(i+1)))
		}
		must(op.SM.WriteSymbolTable(op.GetBytes(), op.ST))
		return op.GetBytes()
	}
	done := make(chan bool)
	for _, n := range []string{"AAA", "ZZZZ"} {
		n := n
		raw := mk(n)
		go func() {
			for i := 0; i < 4000; i++ {
				op := nop(raw)
				for _, s := range op.ST {
					check(s.Address == 0 || strings.HasPrefix(s.Name, n), "symbol %q on disk %q", s.Name, n)
				}
			}
			done <- true
		}()
	}
	<-done
	<-done
}
''')
seed("C23-one-sector-alias", "C23", "changing the data returned for a NakedOS file of exactly one sector",
 "the contents handed out are a window onto the disk",
 [("supermon/supermon.go", '''	for _, ts := range sm.SectorsForFile(file) {
		bytes, err := disk.ReadSector(diskbytes, ts.Track, ts.Sector)
		if err != nil {
			return nil, err
		}
''', '''	sectors := sm.SectorsForFile(file)
	if len(sectors) == 1 {
		// No need to put pieces together.
		start := (int(sectors[0].Track)*16 + int(sectors[0].Sector)) * 256
		if start+256 <= len(diskbytes) {
			return diskbytes[start : start+256], nil
		}
	}
	for _, ts := range sectors {
		bytes, err := disk.ReadSector(diskbytes, ts.Track, ts.Sector)
		if err != nil {
			return nil, err
		}
''')],
 '''
func demo() {
	op := nop(naked())
	_, err := put(op, "DF05", pattern(200, 1), false)
	must(err)
	fi, err := op.GetFile("DF05")
	must(err)
	fi.Data[0] = 0
	fi, err = op.GetFile("DF05")
	must(err)
	check(fi.Data[0] == pattern(1, 1)[0], "disk changed")
}
''')
seed("C23-order-cache", "C23", "opening images in several goroutines at once",
 "an unsynchronised cache of validated orders",
 [("disk/open.go", '''func validateOrder(order []int) error {
''', '''func validateOrder(order []int) error {
	if len(order) > 0 && validOrders[&order[0]] == len(order) {
		return nil
	}
'''), ("disk/open.go", '''		seen[mapping] = true
	}
	return nil
}''', '''		seen[mapping] = true
	}
	validOrders[&order[0]] = len(order)
	return nil
}

// validOrders remembers the tables that were found to be valid.
var validOrders = map[*int]int{}''')],
 '''
func demo() {
	b := pattern(143360, 1)
	done := make(chan bool)
	for g := 0; g < 8; g++ {
		go func() {
			for i := 0; i < 3000; i++ {
				o := append([]int(nil), disk.Dos33LogicalToPhysicalSectorMap...)
				_, err := disk.Swizzle(b, o)
				must(err)
			}
			done <- true
		}()
	}
	for g := 0; g < 8; g++ {
		<-done
	}
}
''')
# ---------------------------------------------------------------- C24
seed("C24-stdin-order", "C24", "a ProDOS-order image on standard input with automatic order",
 "images on standard input are always taken in DOS order",
 [("disk/open.go", '''	if filename == "-" {
		return OpenFile(os.Stdin, order,''', '''	if filename == "-" {
		order := order
		if order == types.DiskOrderAuto {
			order = OrderFromFilename(filename, types.DiskOrderDO)
		}
		return OpenFile(os.Stdin, order,''')],
 '''
func demo() {
	do := repoDisk("Super-Mon-2.0.dsk")
	file("a", do)
	want, code := cli(nil, "dump", "a", "DF03")
	check(code == 0, "dump exits %d", code)
	out, code := cli(doToPo(do), "dump", "-", "DF03")
	check(code == 0 && bytes.Equal(out, want), "exit %d", code)
}
''')
seed("C24-stdin-limit", "C24", "more than a disk's worth of data on standard input",
 "standard input is silently cut to the size of a disk",
 [("helpers/helpers.go", "		return io.ReadAll(os.Stdin)", "		return io.ReadAll(io.LimitReader(os.Stdin, 143360))")],
 '''
func demo() {
	out, code := cli(pattern(143361, 1), "reorder", "--order", "do", "-")
	check(code == 1 && len(out) == 0, "exit %d, %d bytes", code, len(out))
}
''')
seed("C24-mksd-notice", "C24", "mksd with - as the image and debugging switched on",
 "a progress message goes to standard output, into the image",
 [("cmd/sd.go", '''	rawBytes, err := disk.Swizzle(''', '''	if globals.Debug > 0 {
		fmt.Printf("writing %d sectors in order %q\\n", sectors, order)
	}
	rawBytes, err := disk.Swizzle(''')],
 '''
func demo() {
	file("p", pattern(100, 1))
	out, code := cli(nil, "-v", "mksd", "-", "p")
	check(code == 0 && len(out) == 143360, "exit %d, %d bytes", code, len(out))
}
''')
seed("C24-stdout-force", "C24", "reorder to - in a directory that holds a file called -",
 "the overwrite check looks at a file called - before writing to standard output",
 [("helpers/helpers.go", '''	if filename == "-" {
		_, err := os.Stdout.Write(contents)
		return err
	}
''', ''''''), ("helpers/helpers.go", '''	return os.WriteFile(filename, contents, 0600)''', '''	if filename == "-" {
		_, err := os.Stdout.Write(contents)
		return err
	}
	return os.WriteFile(filename, contents, 0600)''')],
 '''
func demo() {
	b := pattern(143360, 1)
	file("a.do", b)
	file("-", []byte("x"))
	out, code := cli(nil, "reorder", "a.do", "-")
	check(code == 0 && bytes.Equal(out, doToPo(b)), "exit %d", code)
}
''')
