# ---------------------------------------------------------------- C27
seed("C27-last-entry", "C27", "a bad time in the last entry of a volume directory block",
 "the last entry of the block is not validated",
 [("prodos/prodos.go", '''	for _, desc := range vdb.Descriptors {
		errors = append(errors, desc.Validate()...)
	}
	if vdb.Extra''', '''	for _, desc := range vdb.Descriptors[:12] {
		errors = append(errors, desc.Validate()...)
	}
	if vdb.Extra''')],
 '''
func demo() {
	var b prodos.VolumeDirectoryBlock
	b.Descriptors[12].Creation.HM = [2]byte{99, 99}
	check(len(b.Validate()) == 2, "%v", b.Validate())
}
''')
seed("C27-prev-low", "C27", "a key block whose previous pointer is a multiple of 256",
 "only the low byte of the previous pointer is looked at",
 [("prodos/prodos.go", "	if skb.Prev != 0 {\n", "	if skb.Prev&0xff != 0 {\n")],
 '''
func demo() {
	var b prodos.SubdirectoryKeyBlock
	b.Header.SeventyFive = 0x75
	check(len(b.Validate()) == 0, "%v", b.Validate())
	b.Prev = 0x300
	check(len(b.Validate()) == 1, "%v", b.Validate())
}
''')
seed("C27-lastmod-same", "C27", "an entry created and modified at the same impossible time",
 "the modification time is not validated when it equals the creation time",
 [("prodos/prodos.go", '''	errors = append(errors, fd.LastMod.Validate(''', '''	if fd.LastMod == fd.Creation {
		return errors
	}
	errors = append(errors, fd.LastMod.Validate(''')],
 '''
func demo() {
	var d prodos.FileDescriptor
	d.Creation.HM = [2]byte{99, 99}
	d.LastMod.HM = [2]byte{99, 99}
	check(len(d.Validate()) == 4, "%v", d.Validate())
}
''')
seed("C27-vtoc-tracks", "C27", "a VTOC with stray bytes in the map entry of a track beyond the disk",
 "map entries beyond the disk's tracks are not validated",
 [("dos3/dos3.go", "	for i, tf := range v.FreeSectors {\n		if !tf.UnusedClear()", "	for i, tf := range v.FreeSectors[:v.NumTracks] {\n		if !tf.UnusedClear()")],
 '''
func demo() {
	v := dos3.DefaultVTOC()
	must(v.Validate())
	v.FreeSectors[40][2] = 1
	check(v.Validate() != nil, "accepted")
}
''')
seed("C27-direction", "C27", "a VTOC whose track direction is neither 1 nor -1",
 "any track direction but 0 is accepted",
 [("dos3/dos3.go", "	if v.TrackDirection != 1 && v.TrackDirection != -1 {", "	if v.TrackDirection == 0 {")],
 '''
func demo() {
	v := dos3.DefaultVTOC()
	v.TrackDirection = 3
	check(v.Validate() != nil, "accepted")
}
''')
# ---------------------------------------------------------------- C28
seed("C28-first-free", "C28", "a disk that uses every file number but FD",
 "the last file number is never found unused",
 [("supermon/supermon.go", "	for file := byte(0x01); file < 0xfe; file++ {", "	for file := byte(0x01); file < 0xfd; file++ {")],
 '''
func demo() {
	sm := make(supermon.SectorMap, 560)
	for i := range sm {
		sm[i] = byte(i%0xfc) + 1
	}
	check(sm.FirstFreeFile() == 0xfd, "%x", sm.FirstFreeFile())
}
''')
seed("C28-verify-track0", "C28", "a map with an illegal entry in sectors C to F of track 0",
 "the free part of track 0 is not verified",
 [("supermon/supermon.go", '''	for track := byte(0); track < 35; track++ {
		for sector := byte(0); sector < 16; sector++ {
			file := sm.FileForSector(track, sector)
			if file == FileIllegal''', '''	for track := byte(1); track < 35; track++ {
		for sector := byte(0); sector < 16; sector++ {
			file := sm.FileForSector(track, sector)
			if file == FileIllegal''')],
 '''
func demo() {
	op := nop(naked())
	must(op.SM.Verify())
	op.SM[13] = 0
	check(op.SM.Verify() != nil, "accepted")
}
''')
seed("C28-fullname-high", "C28", "a file number of 80 or more, and a symbol for the number without its high bit",
 "the full name of a high file number carries the symbol of another file",
 [("supermon/supermon.go", """	symbols := st.SymbolsForAddress(0xDF00 + uint16(file))
	if len(symbols) > 0 {
		return fmt.Sprintf(""", """	symbols := st.SymbolsForAddress(0xDF00 + uint16(file&0x7f))
	if len(symbols) > 0 {
		return fmt.Sprintf(""")],
 '''
func demo() {
	op := nop(naked())
	must(op.ST.AddSymbol("FOO", 0xDF85))
	check(supermon.FullnameForFile(0x85, op.ST) == "DF85:FOO", "%s", supermon.FullnameForFile(0x85, op.ST))
}
''')
seed("C28-hex-symbol", "C28", "a symbol whose name is also a hexadecimal number",
 "a symbol that looks like an address is read as the address",
 [("supermon/supermon.go", '''		// If there's a symbol by that name, use it.
		if addr := st.ByName(name); addr != 0 {
			return 0, addr, name, nil
		}
		// If we can parse it as an address, do so.
		if addr, err := strconv.ParseUint(name, 16, 16); err == nil {
			return uint16(addr), 0, "", nil
		}
''', '''		// If we can parse it as an address, do so.
		if addr, err := strconv.ParseUint(name, 16, 16); err == nil {
			return uint16(addr), 0, "", nil
		}
		// If there's a symbol by that name, use it.
		if addr := st.ByName(name); addr != 0 {
			return 0, addr, name, nil
		}
''')],
 '''
func demo() {
	op := nop(naked())
	must(op.ST.AddSymbol("FEED", 0x1234))
	a, b, s, err := op.ST.ParseCompoundSymbol("FEED")
	check(err == nil && a == 0 && b == 0x1234 && s == "FEED", "%x %x %s %v", a, b, s, err)
}
''')
seed("C28-set-track", "C28", "giving a sector of track 35 to a file",
 "a track just outside the disk is not refused cleanly",
 [("supermon/supermon.go", "	if track >= 35 {\n		return fmt.Errorf(\"track %d >34\", track)\n	}\n	if sector >= 16 {\n		return fmt.Errorf(\"sector %d >15\", sector)\n	}\n", "	if int(track)*16+int(sector) >= len(sm) {\n		return fmt.Errorf(\"track %d sector %d is not on the disk\", track, sector)\n	}\n")],
 '''
func demo() {
	op := nop(naked())
	check(op.SM.SetFileForSector(3, 16, 9) != nil, "sector 16 accepted")
}
''')
