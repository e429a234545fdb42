
seed("C23-catalog-cache", "C23", "two DOS 3.3 images with the same VTOC and different catalogs opened in one process",
 "the catalog of the first image is given for the second",
 [("dos3/dos3.go", "	for _, cs := range css {\n		for _, fd", '''	var key [256]byte
	copy(key[:], diskbytes[VTOCTrack*4096:])
	catalogMu.Lock()
	defer catalogMu.Unlock()
	if c, ok := catalogs[key]; ok {
		return append([]FileDesc{}, c[0]...), append([]FileDesc{}, c[1]...), nil
	}
	defer func() {
		catalogs[key] = [2][]FileDesc{append([]FileDesc{}, files...), append([]FileDesc{}, deleted...)}
	}()
	for _, cs := range css {
		for _, fd'''), ("dos3/dos3.go", "import (\n", 'import (\n	"sync"\n'),
  ("dos3/dos3.go", "// ReadCatalog reads", "var (\n	catalogMu sync.Mutex\n	catalogs  = map[[256]byte][2][]FileDesc{}\n)\n\n// ReadCatalog reads")],
 '''
func demo() {
	a := repoDisk("dos33master.dsk")
	op, _, err := open(a, "a.dsk", "do", "dos3")
	must(err)
	_, err = op.Catalog("")
	must(err)
	b := append([]byte{}, a...)
	// rename the first file
	e := b[17*4096+15*256+0x0b:]
	e[3] ^= 1
	op, _, err = open(b, "b.dsk", "do", "dos3")
	must(err)
	ds, err := op.Catalog("")
	must(err)
	check(ds[0].Name[0] == e[3]&0x7f, "the first file is called %q", ds[0].Name)
}
''')
seed("C23-volume-cache", "C23", "two ProDOS images with the same volume directory and different subdirectories opened in one process",
 "the subdirectories of the first image are given for the second",
 [("prodos/prodos.go", "	vol, err := readVolume(o.data, 2, o.debug)\n	if err != nil {\n		return nil, fmt.Errorf(\"error reading volume: %w\", err)\n	}\n", '''	var key disk.Block
	copy(key[:], o.data[2*512:])
	volumeMu.Lock()
	defer volumeMu.Unlock()
	vol, ok := volumes[key]
	if !ok {
		var err error
		vol, err = readVolume(o.data, 2, o.debug)
		if err != nil {
			return nil, fmt.Errorf("error reading volume: %w", err)
		}
		volumes[key] = vol
	}
'''), ("prodos/prodos.go", "import (\n", 'import (\n	"sync"\n'),
  ("prodos/prodos.go", "// operator is a disk", "var (\n	volumeMu sync.Mutex\n	volumes  = map[disk.Block]Volume{}\n)\n\n// operator is a disk")],
 '''
func demo() {
	b := prodosVol(400)
	psub(b, 20, "SUB", 2, 1, 1)
	pentry(b, 2, 1, 0xd, "SUB", 15, 20, 1, 512)
	pentry(b, 20, 1, 1, "ONE", 4, 100, 1, 5)
	ds, err := proOp(b).Catalog("SUB")
	check(err == nil && len(ds) == 1 && ds[0].Name == "ONE", "%v %v", ds, err)
	c := append([]byte{}, b...)
	pentry(c, 20, 1, 1, "TWO", 4, 100, 1, 5)
	ds, err = proOp(c).Catalog("SUB")
	check(err == nil && len(ds) == 1 && ds[0].Name == "TWO", "%v %v", ds, err)
}
''')
seed("C04-description", "C04", "a locked text file that ends in zeros, and what its contents are described as",
 "text files that were shortened are described as unlocked",
 [("dos3/dos3.go", "		fi.Descriptor.Length = len(data)\n		fi.Data = data\n", "		if len(data) < len(fi.Data) {\n			fi.Descriptor = types.Descriptor{Name: desc.Name, Sectors: desc.Sectors, Type: desc.Type}\n		}\n		fi.Descriptor.Length = len(data)\n		fi.Data = data\n")],
 '''
func demo() {
	b := repoDisk("dos33master.dsk")
	// the locked program HELLO becomes a locked text
	e := b[17*4096+15*256+0x0b:][:35]
	e[2] = 0x80
	op, _, err := open(b, "b.dsk", "do", "dos3")
	must(err)
	ds, err := op.Catalog("")
	must(err)
	fi, err := op.GetFile(ds[0].Name)
	must(err)
	check(fi.Descriptor.Locked, "%+v", fi.Descriptor)
}
''')
seed("C06-description", "C06", "getting a file by a symbol, when its size in sectors is a multiple of 16",
 "the number of sectors a file is described with is cut to a byte's half",
 [("supermon/supermon.go", "		Sectors: len(data) / 256,\n", "		Sectors: len(data) / 256 & 0x0f,\n")],
 '''
func demo() {
	op := nop(naked())
	_, err := op.PutFile(types.FileInfo{Descriptor: types.Descriptor{Name: "DF50", Length: 20 * 256, Type: types.FiletypeBinary}, Data: pattern(20*256, 3)}, true)
	must(err)
	fi, err := op.GetFile("DF50")
	must(err)
	check(fi.Descriptor.Sectors == 20, "%+v", fi.Descriptor)
}
''')
seed("C10-wrapped-link", "C10", "a link below the load location in input that is almost as long as the memory",
 "the link is taken modulo 64 KiB, so a program that leaves its bounds is listed as if complete",
 [("basic/applesoft/applesoft.go", "		return address - int(location)\n", "		return int(uint16(address - int(location)))\n")],
 '''
func demo() {
	b := []byte{0x00, 0x01, 10, 0, 0x80, 0}
	b = append(b, make([]byte, 66000)...)
	_, err := applesoft.Decode(b, 0x801)
	check(err != nil, "accepted")
}
''')
