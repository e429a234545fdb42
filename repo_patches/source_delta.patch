From f53739beed564ed001f22163c0585e2bc92a9b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:41 +0000
Subject: [PATCH 01/31] fix: dos3: record visited catalog sectors, so a cyclic
 catalog is an error, not an endless loop

---
 dos3/dos3.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dos3/dos3.go b/dos3/dos3.go
index a909ca3..7425dfe 100644
--- a/dos3/dos3.go
+++ b/dos3/dos3.go
@@ -509,6 +509,7 @@ func readCatalogSectors(diskbytes []byte, debug int) ([]CatalogSector, error) {
 		if seen[ts] {
 			return nil, fmt.Errorf("Catalog tries to read TrackSector track=%d sector=%d twice", nextTrack, nextSector)
 		}
+		seen[ts] = true
 		if nextTrack >= v.NumTracks {
 			return nil, fmt.Errorf("catalog sectors can't be in track %d: disk only has %d tracks", nextTrack, v.NumTracks)
 		}
-- 
2.43.0


From acb34d8ec721d737743505105a7f730dfc54d71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:42 +0000
Subject: [PATCH 02/31] fix: dos3: a last track/sector list with no entries
 adds no data, instead of 122 sectors of zeros

---
 dos3/dos3.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dos3/dos3.go b/dos3/dos3.go
index 7425dfe..62d4466 100644
--- a/dos3/dos3.go
+++ b/dos3/dos3.go
@@ -413,6 +413,7 @@ func (fd *FileDesc) Contents(diskbytes []byte) ([]byte, error) {
 		end := 121
 		// If it's the last tsl, stop at the last non-zero TrackSector.
 		if i == len(tsls)-1 {
+			end = -1
 			for j, ts := range tsl.TrackSectors {
 				if ts.Track != 0 || ts.Sector != 0 {
 					end = j
-- 
2.43.0


From 13cdac7a8e38ebac4011c3d1a7fc4fda4a5aab35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:43 +0000
Subject: [PATCH 03/31] fix: dos3: GetFile of an empty file or one shorter than
 its length header must not panic or invent data

---
 dos3/dos3.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dos3/dos3.go b/dos3/dos3.go
index 62d4466..c881b43 100644
--- a/dos3/dos3.go
+++ b/dos3/dos3.go
@@ -624,7 +624,7 @@ func (o operator) GetFile(filename string) (types.FileInfo, error) {
 	errType := "UNKNOWN"
 	switch fd.Filetype & 0x7f {
 	case FiletypeText: // Text file
-		for data[len(data)-1] == 0 {
+		for len(data) > 0 && data[len(data)-1] == 0 {
 			data = data[:len(data)-1]
 		}
 		fi.Descriptor.Length = len(data)
@@ -638,10 +638,19 @@ func (o operator) GetFile(filename string) (types.FileInfo, error) {
 		case FiletypeInteger:
 			// TODO(zellyn): figure out what address integer basic programs are stored at.
 		case FiletypeBinary:
+			if len(data) < 2 {
+				return types.FileInfo{}, fmt.Errorf("file %q is too short to hold a load address", filename)
+			}
 			fi.StartAddress = uint16(data[0]) + uint16(data[1])<<8
 			data = data[2:]
 		}
+		if len(data) < 2 {
+			return types.FileInfo{}, fmt.Errorf("file %q is too short to hold its length", filename)
+		}
 		length := int(data[0]) + int(data[1])*256
+		if length+2 > len(data) {
+			return types.FileInfo{}, fmt.Errorf("file %q claims a length of %d bytes, but only %d are present", filename, length, len(data)-2)
+		}
 		data = data[2 : length+2]
 		fi.Descriptor.Length = length
 		fi.Data = data
-- 
2.43.0


From ec48ec6ad875e0500e48fb81d0406f95af1c3bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:44 +0000
Subject: [PATCH 04/31] fix: disk: reading or writing a sector number of 16 or
 more is an error, not access to another track

---
 disk/marshal.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/disk/marshal.go b/disk/marshal.go
index e477115..2334847 100644
--- a/disk/marshal.go
+++ b/disk/marshal.go
@@ -48,6 +48,9 @@ func UnmarshalLogicalSector(diskbytes []byte, ss SectorSink, track, sector byte)
 
 // ReadSector just reads 256 bytes from the given track and sector.
 func ReadSector(diskbytes []byte, track, sector byte) ([]byte, error) {
+	if sector >= FloppySectors {
+		return nil, fmt.Errorf("cannot read track %d/sector %d: tracks have only %d sectors", track, sector, FloppySectors)
+	}
 	start := int(track)*FloppyTrackBytes + int(sector)*256
 	end := start + 256
 	if len(diskbytes) < end {
@@ -75,6 +78,9 @@ func WriteSector(diskbytes []byte, track, sector byte, data []byte) error {
 	if len(data) != 256 {
 		return fmt.Errorf("call to writeSector with len(data)==%d; want 256", len(data))
 	}
+	if sector >= FloppySectors {
+		return fmt.Errorf("cannot write track %d/sector %d: tracks have only %d sectors", track, sector, FloppySectors)
+	}
 	start := int(track)*FloppyTrackBytes + int(sector)*256
 	end := start + 256
 	if len(diskbytes) < end {
-- 
2.43.0


From 348a32bf1a282d27d7819e1d7d1b471856496347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:22 +0000
Subject: [PATCH 05/31] fix: prodos: directory structures that form a cycle are
 an error, not an endless loop or recursion

---
 prodos/prodos.go | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/prodos/prodos.go b/prodos/prodos.go
index a4c873a..048e9d4 100644
--- a/prodos/prodos.go
+++ b/prodos/prodos.go
@@ -692,7 +692,13 @@ func readVolume(devicebytes []byte, keyBlock uint16, debug int) (Volume, error)
 	// 	fmt.Fprintf(os.Stderr, "volume bitmap: %#v\n", v.bitmap)
 	// }
 
+	// Every directory block belongs to exactly one place in one chain.
+	seen := map[uint16]bool{keyBlock: true}
 	for block := v.keyBlock.Next; block != 0; block = v.blocks[len(v.blocks)-1].Next {
+		if seen[block] {
+			return v, fmt.Errorf("directory block %d is used twice", block)
+		}
+		seen[block] = true
 		vdb := VolumeDirectoryBlock{}
 		if err := disk.UnmarshalBlock(devicebytes, &vdb, block); err != nil {
 			return v, err
@@ -714,7 +720,11 @@ func readVolume(devicebytes []byte, keyBlock uint16, debug int) (Volume, error)
 
 	for i := 0; i < len(sdds); i++ {
 		sdd := sdds[i]
-		sub, err := readSubdirectory(devicebytes, sdd)
+		if v.subdirsByBlock[sdd.KeyPointer] != nil {
+			// Another entry already refers to this subdirectory.
+			continue
+		}
+		sub, err := readSubdirectory(devicebytes, sdd, seen)
 		if err != nil {
 			return v, err
 		}
@@ -739,7 +749,7 @@ func readVolume(devicebytes []byte, keyBlock uint16, debug int) (Volume, error)
 		if debug > 1 {
 			fmt.Fprintf(os.Stderr, "processing subdir %q\n", name)
 		}
-		parentName, err := parentDirName(sd.keyBlock.Header.ParentPointer, keyBlock, v.subdirsByBlock, v.firstSubdirBlocks)
+		parentName, err := parentDirName(sd.keyBlock.Header.ParentPointer, keyBlock, v.subdirsByBlock, v.firstSubdirBlocks, len(v.subdirsByBlock))
 		if err != nil {
 			return v, err
 		}
@@ -783,8 +793,9 @@ func (s Subdirectory) subdirDescriptors() []FileDescriptor {
 	return descs
 }
 
-// parentDirName returns the full recursive directory name of the given parent directory.
-func parentDirName(parentDirectoryBlock uint16, keyBlock uint16, subdirMap map[uint16]*Subdirectory, firstSubdirBlockMap map[uint16]uint16) (string, error) {
+// parentDirName returns the full recursive directory name of the given parent
+// directory, which is at most depth levels below the volume directory.
+func parentDirName(parentDirectoryBlock uint16, keyBlock uint16, subdirMap map[uint16]*Subdirectory, firstSubdirBlockMap map[uint16]uint16, depth int) (string, error) {
 	if parentDirectoryBlock == keyBlock || firstSubdirBlockMap[parentDirectoryBlock] == keyBlock {
 		return "", nil
 	}
@@ -798,8 +809,11 @@ func parentDirName(parentDirectoryBlock uint16, keyBlock uint16, subdirMap map[u
 	if sd == nil {
 		return "", fmt.Errorf("unable to find subdirectory for block %d", parentDirectoryBlock)
 	}
+	if depth == 0 {
+		return "", fmt.Errorf("subdirectory %q is its own ancestor", sd.keyBlock.Header.Name())
+	}
 
-	parentName, err := parentDirName(sd.keyBlock.Header.ParentPointer, keyBlock, subdirMap, firstSubdirBlockMap)
+	parentName, err := parentDirName(sd.keyBlock.Header.ParentPointer, keyBlock, subdirMap, firstSubdirBlockMap, depth-1)
 	if err != nil {
 		return "", err
 	}
@@ -811,17 +825,25 @@ func parentDirName(parentDirectoryBlock uint16, keyBlock uint16, subdirMap map[u
 }
 
 // readSubdirectory reads a single subdirectory from a device into
-// memory.
-func readSubdirectory(devicebytes []byte, fd FileDescriptor) (Subdirectory, error) {
+// memory, adding its blocks to seen.
+func readSubdirectory(devicebytes []byte, fd FileDescriptor, seen map[uint16]bool) (Subdirectory, error) {
 	s := Subdirectory{
 		keyBlock: &SubdirectoryKeyBlock{},
 	}
 
+	if seen[fd.KeyPointer] {
+		return s, fmt.Errorf("directory block %d is used twice", fd.KeyPointer)
+	}
+	seen[fd.KeyPointer] = true
 	if err := disk.UnmarshalBlock(devicebytes, s.keyBlock, fd.KeyPointer); err != nil {
 		return s, fmt.Errorf("cannot read first block of subdirectory %q (block %d): %v", fd.Name(), fd.KeyPointer, err)
 	}
 
 	for block := s.keyBlock.Next; block != 0; block = s.blocks[len(s.blocks)-1].Next {
+		if seen[block] {
+			return s, fmt.Errorf("directory block %d is used twice", block)
+		}
+		seen[block] = true
 		sdb := SubdirectoryBlock{}
 		if err := disk.UnmarshalBlock(devicebytes, &sdb, block); err != nil {
 			return s, err
-- 
2.43.0


From 4f6df5a32add42281ea3cd19e358a290def094dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:23 +0000
Subject: [PATCH 06/31] fix: prodos: NewVolumeBitMap of more than 61440 blocks
 overflowed and panicked

---
 prodos/prodos.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodos/prodos.go b/prodos/prodos.go
index 048e9d4..24628cb 100644
--- a/prodos/prodos.go
+++ b/prodos/prodos.go
@@ -65,7 +65,7 @@ type VolumeBitMap []bitmapPart
 
 // NewVolumeBitMap returns a volume bitmap of the given size.
 func NewVolumeBitMap(startBlock uint16, blocks uint16) VolumeBitMap {
-	vbm := VolumeBitMap(make([]bitmapPart, (blocks+(512*8)-1)/(512*8)))
+	vbm := VolumeBitMap(make([]bitmapPart, (int(blocks)+(512*8)-1)/(512*8)))
 	for i := range vbm {
 		vbm[i].SetBlock(startBlock + uint16(i))
 	}
-- 
2.43.0


From a6f27744e84b26288b929a16c951b2c9de45c154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:24 +0000
Subject: [PATCH 07/31] fix: prodos: IndexBlock.Set must change the index
 block, not a copy of it

---
 prodos/prodos.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodos/prodos.go b/prodos/prodos.go
index 24628cb..d1a1913 100644
--- a/prodos/prodos.go
+++ b/prodos/prodos.go
@@ -441,7 +441,7 @@ func (i IndexBlock) Get(blockNum byte) uint16 {
 }
 
 // Set the blockNum'th block number in an index block.
-func (i IndexBlock) Set(blockNum byte, block uint16) {
+func (i *IndexBlock) Set(blockNum byte, block uint16) {
 	i[blockNum] = byte(block)
 	i[256+int(blockNum)] = byte(block >> 8)
 }
-- 
2.43.0


From c50f6bd631f56894c326c1fcbec3cf13dab3201a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:22 +0000
Subject: [PATCH 08/31] fix: prodos: of two subdirectories with one name always
 use the first, not a random one

---
 prodos/prodos.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/prodos/prodos.go b/prodos/prodos.go
index d1a1913..094cd7e 100644
--- a/prodos/prodos.go
+++ b/prodos/prodos.go
@@ -718,6 +718,7 @@ func readVolume(devicebytes []byte, keyBlock uint16, debug int) (Volume, error)
 		fmt.Fprintf(os.Stderr, "got %d top-level subdir descriptors\n", len(sdds))
 	}
 
+	var subdirBlocks []uint16 // Key blocks of subdirectories, in the order found.
 	for i := 0; i < len(sdds); i++ {
 		sdd := sdds[i]
 		if v.subdirsByBlock[sdd.KeyPointer] != nil {
@@ -729,6 +730,7 @@ func readVolume(devicebytes []byte, keyBlock uint16, debug int) (Volume, error)
 			return v, err
 		}
 		v.subdirsByBlock[sdd.KeyPointer] = &sub
+		subdirBlocks = append(subdirBlocks, sdd.KeyPointer)
 		if debug > 1 {
 			fmt.Fprintf(os.Stderr, " subdirsByBlock[%d] → %q\n", sdd.KeyPointer, sub.keyBlock.Header.Name())
 		}
@@ -744,7 +746,8 @@ func readVolume(devicebytes []byte, keyBlock uint16, debug int) (Volume, error)
 		fmt.Fprintf(os.Stderr, "got %d total subdir descriptors\n", len(sdds))
 	}
 
-	for _, sd := range v.subdirsByBlock {
+	for _, block := range subdirBlocks {
+		sd := v.subdirsByBlock[block]
 		name := sd.keyBlock.Header.Name()
 		if debug > 1 {
 			fmt.Fprintf(os.Stderr, "processing subdir %q\n", name)
@@ -757,7 +760,9 @@ func readVolume(devicebytes []byte, keyBlock uint16, debug int) (Volume, error)
 			name = parentName + "/" + name
 		}
 
-		v.subdirsByName[name] = sd
+		if v.subdirsByName[name] == nil {
+			v.subdirsByName[name] = sd
+		}
 	}
 	if debug > 1 {
 		fmt.Fprintf(os.Stderr, "subdirsByName:\n")
-- 
2.43.0


From 5ca16549084ac0268b0ac763850145a034d447e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:23 +0000
Subject: [PATCH 09/31] fix: supermon: reject symbol names with characters that
 cannot be encoded, instead of dropping them

---
 supermon/supermon.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/supermon/supermon.go b/supermon/supermon.go
index f3add84..fd07031 100644
--- a/supermon/supermon.go
+++ b/supermon/supermon.go
@@ -295,6 +295,8 @@ func encodeSymbol(name string) (six []byte, err error) {
 		case '5' <= ch && ch <= '9':
 			value = value<<6 + 0x3b + uint64(ch-'5')
 			bits += 6
+		default:
+			return nil, fmt.Errorf("invalid Super-Mon symbol %q: invalid character %q", name, ch)
 		}
 		if bits > 48 {
 			return nil, fmt.Errorf("invalid Super-Mon symbol %q: too long", name)
-- 
2.43.0


From 9718b0e30f9b1491daa141dfeccc6438c9b02aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:24 +0000
Subject: [PATCH 10/31] fix: supermon: ParseCompoundSymbol accepted invalid
 symbol names and refused valid ones

---
 supermon/supermon.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/supermon/supermon.go b/supermon/supermon.go
index fd07031..6f70081 100644
--- a/supermon/supermon.go
+++ b/supermon/supermon.go
@@ -581,8 +581,7 @@ func (st SymbolTable) ParseCompoundSymbol(name string) (address uint16, symAddre
 			return uint16(addr), 0, "", nil
 		}
 		// If it's a valid symbol name, assume that's what it is.
-		if _, err := encodeSymbol(name); err != nil {
-			//nolint:nilerr
+		if _, err := encodeSymbol(name); err == nil {
 			return 0, 0, name, nil
 		}
 		return 0, 0, "", fmt.Errorf("%q is not a valid symbol name or address", name)
-- 
2.43.0


From 3e5e6ac7e7f477ac7f1865bb7cb773c4c91c5b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:25 +0000
Subject: [PATCH 11/31] fix: supermon: links of empty symbol table entries
 corrupted the chains of the others

---
 supermon/supermon.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/supermon/supermon.go b/supermon/supermon.go
index 6f70081..f6632f3 100644
--- a/supermon/supermon.go
+++ b/supermon/supermon.go
@@ -337,7 +337,7 @@ func (sm SectorMap) ReadSymbolTable(diskbytes []byte) (SymbolTable, error) {
 	for i := 0; i < 0x0fff; i += 5 {
 		address := uint16(symtbl1[i]) + uint16(symtbl1[i+1])<<8
 		if address == 0 {
-			table = append(table, Symbol{})
+			table = append(table, Symbol{Link: -1})
 			continue
 		}
 		linkAddr := uint16(symtbl1[i+2]) + uint16(symtbl1[i+3])<<8
@@ -462,6 +462,7 @@ func (st SymbolTable) DeleteSymbol(name string) bool {
 					break
 				}
 			}
+			sym.Link = -1
 			st[i] = sym
 			return true
 		}
@@ -496,7 +497,7 @@ func (st SymbolTable) AddSymbol(name string, address uint16) error {
 		return fmt.Errorf("symbol table full")
 	}
 	for j, sym := range st {
-		if addrHash(sym.Address) == hash && sym.Link == -1 {
+		if sym.Address != 0 && addrHash(sym.Address) == hash && sym.Link == -1 {
 			st[j].Link = pos
 			break
 		}
-- 
2.43.0


From 15230114f674ad424214cd752e0535531e869bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:26 +0000
Subject: [PATCH 12/31] fix: supermon: writing an empty file panicked, and an
 illegal file number freed reserved sectors

---
 supermon/supermon.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/supermon/supermon.go b/supermon/supermon.go
index f6632f3..6fd23c3 100644
--- a/supermon/supermon.go
+++ b/supermon/supermon.go
@@ -188,6 +188,12 @@ func (sm SectorMap) Delete(file byte) {
 // WriteFile writes the contents of a file. It returns true if the
 // file already existed.
 func (sm SectorMap) WriteFile(diskbytes []byte, file byte, contents []byte, overwrite bool) (bool, error) {
+	if file == FileIllegal || file == FileFree || file == FileReserved {
+		return false, fmt.Errorf("illegal file number: 0x%0X", file)
+	}
+	if len(contents) == 0 {
+		return false, fmt.Errorf("cannot write file %d: NakedOS files cannot be empty", file)
+	}
 	sectorsNeeded := (len(contents) + 255) / 256
 	cts := make([]byte, 256*sectorsNeeded)
 	copy(cts, contents)
-- 
2.43.0


From 4867fae3b56f457f8ee8aff47c5071a960adeeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:27 +0000
Subject: [PATCH 13/31] fix: supermon: deleting a name that does not exist
 returns false, not an error, so that rm -f works

---
 supermon/supermon.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/supermon/supermon.go b/supermon/supermon.go
index 6fd23c3..69324fe 100644
--- a/supermon/supermon.go
+++ b/supermon/supermon.go
@@ -730,6 +730,9 @@ func (o Operator) GetFile(filename string) (types.FileInfo, error) {
 // deleted, false if it didn't exist.
 func (o Operator) Delete(filename string) (bool, error) {
 	file, err := o.ST.FileForName(filename)
+	if errors.IsFileNotFound(err) {
+		return false, nil
+	}
 	if err != nil {
 		return false, err
 	}
-- 
2.43.0


From cfbcf8542aa81e26b6a62f82d0c64f9719404024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:33 +0000
Subject: [PATCH 14/31] fix: applesoft: line links that form a cycle or point
 just before the program are errors, not an endless loop or panic

---
 basic/applesoft/applesoft.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/basic/applesoft/applesoft.go b/basic/applesoft/applesoft.go
index afd80ae..900fbe5 100644
--- a/basic/applesoft/applesoft.go
+++ b/basic/applesoft/applesoft.go
@@ -149,9 +149,14 @@ func Decode(raw []byte, location uint16) (Listing, error) {
 	listing := []Line{}
 	last := 0 // last line number
 	next := int(location)
+	seen := map[int]bool{} // addresses of lines already decoded
 	for next != 0 {
+		if seen[next] {
+			return nil, fmt.Errorf("next line at $%X was already listed: the program never ends", next)
+		}
+		seen[next] = true
 		ofs := calcOffset(next)
-		if ofs < -1 || ofs+1 >= len(raw) {
+		if ofs < 0 || ofs+1 >= len(raw) {
 			return nil, fmt.Errorf("line %d has next line at $%X, which is outside the input range of %s", last, next, bounds)
 		}
 		next = int(raw[ofs]) + 256*int(raw[ofs+1])
-- 
2.43.0


From f881ac48c1563d6877b05861fe185e357a833727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:34 +0000
Subject: [PATCH 15/31] fix: applesoft: tokens B8, C0 and CC are DEF, TAB( and
 ^

---
 basic/applesoft/applesoft.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/basic/applesoft/applesoft.go b/basic/applesoft/applesoft.go
index 900fbe5..46729de 100644
--- a/basic/applesoft/applesoft.go
+++ b/basic/applesoft/applesoft.go
@@ -67,7 +67,7 @@ var TokensByCode = map[byte]string{
 	0xB5: "WAIT",
 	0xB6: "LOAD",
 	0xB7: "SAVE",
-	0xB8: "DEF FN",
+	0xB8: "DEF",
 	0xB9: "POKE",
 	0xBA: "PRINT",
 	0xBB: "CONT",
@@ -75,7 +75,7 @@ var TokensByCode = map[byte]string{
 	0xBD: "CLEAR",
 	0xBE: "GET",
 	0xBF: "NEW",
-	0xC0: "TAB",
+	0xC0: "TAB(",
 	0xC1: "TO",
 	0xC2: "FN",
 	0xC3: "SPC(",
@@ -87,7 +87,7 @@ var TokensByCode = map[byte]string{
 	0xC9: "-",
 	0xCA: "*",
 	0xCB: "/",
-	0xCC: ";",
+	0xCC: "^",
 	0xCD: "AND",
 	0xCE: "OR",
 	0xCF: ">",
-- 
2.43.0


From e2a6b432a1c3af175f64ad5dadf8d124a1053112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:35 +0000
Subject: [PATCH 16/31] fix: integer: a line length below 4 is an error, not a
 panic

---
 basic/integer/integer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/basic/integer/integer.go b/basic/integer/integer.go
index b51a412..d884528 100644
--- a/basic/integer/integer.go
+++ b/basic/integer/integer.go
@@ -170,6 +170,9 @@ func Decode(raw []byte) (Listing, error) {
 	for len(raw) > 3 {
 		size := int(raw[0])
 		num := int(raw[1]) + 256*int(raw[2])
+		if size < 4 {
+			return nil, fmt.Errorf("line %d has impossible length %d", num, size)
+		}
 		if len(raw) < size {
 			return nil, fmt.Errorf("line %d wants %d bytes; only %d remain", num, size, len(raw))
 		}
-- 
2.43.0


From 2be255d05a00dadf52c714c2947b18a47089163c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:35 +0000
Subject: [PATCH 17/31] fix: integer: token 79 is NODSP

---
 basic/integer/integer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basic/integer/integer.go b/basic/integer/integer.go
index d884528..c21a32b 100644
--- a/basic/integer/integer.go
+++ b/basic/integer/integer.go
@@ -137,7 +137,7 @@ var TokensByCode = map[byte]string{
 	0x76: "LIST",
 	0x77: "POP",
 	0x78: "NODSP",
-	0x79: "DSP",
+	0x79: "NODSP",
 	0x7A: "NOTRACE",
 	0x7B: "DSP",
 	0x7C: "DSP",
-- 
2.43.0


From c586214d6a67a1abd52c601c5110601096e7056b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:36 +0000
Subject: [PATCH 18/31] fix: mksd: what must end below 0xC000 is the load
 address plus the length, not the start address

---
 cmd/sd.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/sd.go b/cmd/sd.go
index 6edca56..45a2fe0 100644
--- a/cmd/sd.go
+++ b/cmd/sd.go
@@ -59,10 +59,10 @@ func (s *SDCmd) Run(globals *types.Globals) error {
 			s.Start, s.Start, s.Address, s.Address, end, end)
 	}
 
-	if int(s.Start)+len(contents) > 0xC000 {
-		end := int(s.Start) + len(contents)
-		return fmt.Errorf("start address %d (%04X) + file length %d (%04X) = %d (%04X), but we can't load past page 0xBF00",
-			s.Start, s.Start, len(contents), len(contents), end, end)
+	if int(s.Address)+len(contents) > 0xC000 {
+		end := int(s.Address) + len(contents)
+		return fmt.Errorf("load address %d (%04X) + file length %d (%04X) = %d (%04X), but we can't load past page 0xBF00",
+			s.Address, s.Address, len(contents), len(contents), end, end)
 	}
 
 	sectors := (len(contents) + 255) / 256
-- 
2.43.0


From fedf2b160bccc489f1b282898994b660cb3856fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:37 +0000
Subject: [PATCH 19/31] fix: types: the empty string is not the name of a
 filetype

---
 types/filetype.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/types/filetype.go b/types/filetype.go
index 0490c5d..669e162 100644
--- a/types/filetype.go
+++ b/types/filetype.go
@@ -179,6 +179,9 @@ func (f Filetype) String() string {
 // FiletypeForName returns the filetype for a full, three-letter, or
 // one-letter name for a Filetype.
 func FiletypeForName(name string) (Filetype, error) {
+	if name == "" {
+		return 0, fmt.Errorf("unknown Filetype: %q", name)
+	}
 	for _, info := range filetypeInfos {
 		if info.Name == name || info.ThreeLetter == name || info.OneLetter == name {
 			return info.Type, nil
-- 
2.43.0


From 92992b514107ee25957c777959799edd47ee4c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:47 +0000
Subject: [PATCH 20/31] fix: integer: digits in a string literal are
 characters, not the start of a number

---
 basic/integer/integer.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/basic/integer/integer.go b/basic/integer/integer.go
index c21a32b..0ee9d72 100644
--- a/basic/integer/integer.go
+++ b/basic/integer/integer.go
@@ -214,11 +214,17 @@ func isalnum(b byte) bool {
 func (l Line) String() string {
 	var buf bytes.Buffer
 	fmt.Fprintf(&buf, "%5d ", l.Num)
-	var lastAN bool
+	var lastAN, inString bool
 	for i := 0; i < len(l.Bytes); i++ {
 		ch := l.Bytes[i]
 		if ch < 0x80 {
 			lastAN = false
+			switch ch {
+			case 0x28:
+				inString = true
+			case 0x29:
+				inString = false
+			}
 			token := TokensByCode[ch]
 			buf.WriteString(token)
 			if len(token) > 1 {
@@ -232,7 +238,7 @@ func (l Line) String() string {
 			}
 		} else {
 			ch -= 0x80
-			if !lastAN && ch >= '0' && ch <= '9' {
+			if !inString && !lastAN && ch >= '0' && ch <= '9' {
 				if len(l.Bytes) < i+3 {
 					buf.WriteByte('?')
 				} else {
-- 
2.43.0


From 7e61f354f6b2a55d7599eb81a8e58ff8032dc101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:31 +0000
Subject: [PATCH 21/31] fix: integer: report a program cut off within the first
 bytes of a line

One to three left-over bytes were silently dropped, so a program cut
short there was listed as if it were complete. The one extra byte that
follows the recorded length of a file with a header is still ignored.
---
 basic/integer/integer.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/basic/integer/integer.go b/basic/integer/integer.go
index 0ee9d72..db744cc 100644
--- a/basic/integer/integer.go
+++ b/basic/integer/integer.go
@@ -162,12 +162,15 @@ func Decode(raw []byte) (Listing, error) {
 	if len(raw) >= 2 {
 		size := int(raw[0]) + (256 * int(raw[1]))
 		if size == len(raw)-2 || size == len(raw)-3 {
-			raw = raw[2:]
+			raw = raw[2 : size+2]
 		}
 	}
 
 	listing := []Line{}
-	for len(raw) > 3 {
+	for len(raw) > 0 {
+		if len(raw) < 4 {
+			return nil, fmt.Errorf("ran out of input: %d bytes left over, too few for a line", len(raw))
+		}
 		size := int(raw[0])
 		num := int(raw[1]) + 256*int(raw[2])
 		if size < 4 {
-- 
2.43.0


From 9e02428febedd1c6b3fe99fe94b3a0f331ea096d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:02 +0000
Subject: [PATCH 22/31] fix: applesoft: a program located at address 0 was
 listed as empty

---
 basic/applesoft/applesoft.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basic/applesoft/applesoft.go b/basic/applesoft/applesoft.go
index 46729de..55bf537 100644
--- a/basic/applesoft/applesoft.go
+++ b/basic/applesoft/applesoft.go
@@ -150,7 +150,7 @@ func Decode(raw []byte, location uint16) (Listing, error) {
 	last := 0 // last line number
 	next := int(location)
 	seen := map[int]bool{} // addresses of lines already decoded
-	for next != 0 {
+	for {
 		if seen[next] {
 			return nil, fmt.Errorf("next line at $%X was already listed: the program never ends", next)
 		}
-- 
2.43.0


From 3434a147b9278f4c6329cb5e702ca3ccef896400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:46 +0000
Subject: [PATCH 23/31] fix: recognise a ProDOS volume by its directory header

Nearly any disk reads as a (garbage) ProDOS directory, so a .dsk or
extensionless image of a ProDOS disk in ProDOS order was always taken in
DOS order, and blank or foreign disks were opened as ProDOS volumes.
---
 prodos/prodos.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/prodos/prodos.go b/prodos/prodos.go
index 094cd7e..23a9d2a 100644
--- a/prodos/prodos.go
+++ b/prodos/prodos.go
@@ -967,9 +967,14 @@ func (of OperatorFactory) Name() string {
 // SeemsToMatch returns true if the []byte disk image seems to match the
 // system of this operator.
 func (of OperatorFactory) SeemsToMatch(devicebytes []byte, debug int) bool {
-	// For now, just return true if we can run Catalog successfully.
-	_, err := readVolume(devicebytes, 2, debug)
-	return err == nil
+	v, err := readVolume(devicebytes, 2, debug)
+	if err != nil {
+		return false
+	}
+	// Nearly anything reads as some directory, so check that it has the
+	// header of one, with entries of the only size we can read.
+	header := v.keyBlock.Header
+	return header.TypeAndNameLength>>4 == TypeVolumeDirectoryHeader && header.EntryLength == 0x27 && header.EntriesPerBlock == 0x0D
 }
 
 // Operator returns an Operator for the []byte disk image.
-- 
2.43.0


From 876c225299687f5021b0873f68103197c5510841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:21 +0000
Subject: [PATCH 24/31] fix: supermon: a put whose name does not fit in the
 symbol table is refused before the disk is changed

---
 supermon/supermon.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/supermon/supermon.go b/supermon/supermon.go
index 69324fe..b03a297 100644
--- a/supermon/supermon.go
+++ b/supermon/supermon.go
@@ -476,6 +476,17 @@ func (st SymbolTable) DeleteSymbol(name string) bool {
 	return false
 }
 
+// hasRoomFor returns true if AddSymbol can store the given name: it is
+// already in the table, or there is an unused entry.
+func (st SymbolTable) hasRoomFor(name string) bool {
+	for _, sym := range st {
+		if sym.Address == 0 || strings.EqualFold(name, sym.Name) {
+			return true
+		}
+	}
+	return false
+}
+
 // AddSymbol adds a new symbol. If a symbol with the given name
 // already exists with a different address, it deletes it first.
 func (st SymbolTable) AddSymbol(name string, address uint16) error {
@@ -781,11 +792,15 @@ func (o Operator) PutFile(fileInfo types.FileInfo, overwrite bool) (existed bool
 			return false, fmt.Errorf("all files already used")
 		}
 	}
+	addSymbol := namedFile != numFile && symbol != ""
+	if addSymbol && !o.ST.hasRoomFor(symbol) {
+		return false, errors.OutOfSpacef("no room for symbol %q: symbol table full", symbol)
+	}
 	existed, err = o.SM.WriteFile(o.data, numFile, fileInfo.Data, overwrite)
 	if err != nil {
 		return existed, err
 	}
-	if namedFile != numFile && symbol != "" {
+	if addSymbol {
 		if err := o.ST.AddSymbol(symbol, 0xDF00+uint16(numFile)); err != nil {
 			return existed, err
 		}
-- 
2.43.0


From 27cd40b002c23e62f60f4bb332bec0296f79ceab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:43 +0000
Subject: [PATCH 25/31] fix: ls, filetypes and applesoft decode report errors
 writing their output

---
 cmd/applesoft.go | 6 +++---
 cmd/catalog.go   | 8 +++++---
 cmd/filetypes.go | 3 +--
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/cmd/applesoft.go b/cmd/applesoft.go
index 321f65a..4547b7b 100644
--- a/cmd/applesoft.go
+++ b/cmd/applesoft.go
@@ -42,9 +42,9 @@ func (d *DecodeCmd) Run(globals *types.Globals) error {
 		return err
 	}
 	if d.Raw {
-		_, _ = os.Stdout.WriteString(listing.String())
+		_, err = os.Stdout.WriteString(listing.String())
 	} else {
-		_, _ = os.Stdout.WriteString(basic.ChevronControlCodes(listing.String()))
+		_, err = os.Stdout.WriteString(basic.ChevronControlCodes(listing.String()))
 	}
-	return nil
+	return err
 }
diff --git a/cmd/catalog.go b/cmd/catalog.go
index 84b2d15..af8a42d 100644
--- a/cmd/catalog.go
+++ b/cmd/catalog.go
@@ -49,10 +49,12 @@ func (l *LsCmd) Run(globals *types.Globals) error {
 		return err
 	}
 	for _, fd := range fds {
+		name := fd.Name
 		if !l.ShortNames && fd.Fullname != "" {
-			fmt.Println(fd.Fullname)
-		} else {
-			fmt.Println(fd.Name)
+			name = fd.Fullname
+		}
+		if _, err := fmt.Println(name); err != nil {
+			return err
 		}
 	}
 	return nil
diff --git a/cmd/filetypes.go b/cmd/filetypes.go
index c39b03e..bb721fe 100644
--- a/cmd/filetypes.go
+++ b/cmd/filetypes.go
@@ -23,6 +23,5 @@ func (f *FiletypesCmd) Run(globals *types.Globals) error {
 	for _, typ := range types.FiletypeInfos(f.All) {
 		fmt.Fprintf(w, "%s\t%s\t%s\t%s\n", typ.Desc, typ.Name, typ.ThreeLetter, typ.OneLetter)
 	}
-	_ = w.Flush()
-	return nil
+	return w.Flush()
 }
-- 
2.43.0


From 3963da3ea93fd808c9152e8992a6d3a631d5e414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:53 +0000
Subject: [PATCH 26/31] fix: supermon: refuse non-ASCII symbol names
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

strings.ToUpper maps some non-ASCII letters (ſ, ı) to ASCII ones, so a
name like "ıAB" was accepted but found as itself only until the disk was
saved, and "ſA" made a symbol of two letters.
---
 supermon/supermon.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/supermon/supermon.go b/supermon/supermon.go
index b03a297..6aba2bd 100644
--- a/supermon/supermon.go
+++ b/supermon/supermon.go
@@ -286,7 +286,7 @@ func encodeSymbol(name string) (six []byte, err error) {
 	if len(name) < 3 {
 		return nil, fmt.Errorf("invalid Super-Mon symbol %q: too short", name)
 	}
-	nm := []byte(strings.ToUpper(name))
+	nm := []byte(name)
 	value := uint64(0)
 	bits := 0
 	for i := len(nm) - 1; i >= 0; i-- {
@@ -295,6 +295,9 @@ func encodeSymbol(name string) (six []byte, err error) {
 		case 'A' <= ch && ch <= 'Z':
 			value = value<<5 + uint64(ch-'@')
 			bits += 5
+		case 'a' <= ch && ch <= 'z':
+			value = value<<5 + uint64(ch-'`')
+			bits += 5
 		case '0' <= ch && ch <= '4':
 			value = value<<6 + 0x1b + uint64(ch-'0')
 			bits += 6
-- 
2.43.0


From d3a93471742ed7281a87edf5ffb8416d4c969160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:54 +0000
Subject: [PATCH 27/31] fix: supermon: getting an unused file number is a
 file-not-found error

---
 supermon/supermon.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/supermon/supermon.go b/supermon/supermon.go
index 6aba2bd..0748761 100644
--- a/supermon/supermon.go
+++ b/supermon/supermon.go
@@ -721,7 +721,7 @@ func (o Operator) GetFile(filename string) (types.FileInfo, error) {
 		return types.FileInfo{}, fmt.Errorf("error reading file DF%02x: %v", file, err)
 	}
 	if len(data) == 0 {
-		return types.FileInfo{}, fmt.Errorf("file DF%02x not fount", file)
+		return types.FileInfo{}, errors.FileNotFoundf("file DF%02x not found", file)
 	}
 	desc := types.Descriptor{
 		Name:    NameForFile(file, o.ST),
-- 
2.43.0


From ee2b783491841d0d0888046da2761e26885fcbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:20 +0000
Subject: [PATCH 28/31] fix: prodos: validate hour and minute of a timestamp in
 the order they are stored

A ProDOS timestamp holds the minute in its third byte and the hour in its
fourth, so Validate reported every timestamp with minute 24 or later (six
files of the shipped ProDOS_2_4_2.po) and accepted hours 24 to 59.
---
 prodos/prodos.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/prodos/prodos.go b/prodos/prodos.go
index 23a9d2a..562f881 100644
--- a/prodos/prodos.go
+++ b/prodos/prodos.go
@@ -154,11 +154,12 @@ func (dt *DateTime) fromBytes(b []byte) {
 
 // Validate checks a DateTime for problems, returning a slice of errors.
 func (dt DateTime) Validate(fieldDescription string) (errors []error) {
-	if dt.HM[0] >= 24 {
-		errors = append(errors, fmt.Errorf("%s expects hour<24; got %d", fieldDescription, dt.HM[0]))
+	// The time is a little-endian word: minute first, then hour.
+	if dt.HM[1] >= 24 {
+		errors = append(errors, fmt.Errorf("%s expects hour<24; got %d", fieldDescription, dt.HM[1]))
 	}
-	if dt.HM[1] >= 60 {
-		errors = append(errors, fmt.Errorf("%s expects minute<60; got %x", fieldDescription, dt.HM[1]))
+	if dt.HM[0] >= 60 {
+		errors = append(errors, fmt.Errorf("%s expects minute<60; got %d", fieldDescription, dt.HM[0]))
 	}
 	return errors
 }
-- 
2.43.0


From 683ea9d7c50de84261f84f064b8a706bb7684d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:07 +0000
Subject: [PATCH 29/31] fix: show DEL escaped like the other control characters

---
 basic/basic.go           | 4 +++-
 basic/integer/integer.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/basic/basic.go b/basic/basic.go
index cc7e75e..edbbb29 100644
--- a/basic/basic.go
+++ b/basic/basic.go
@@ -4,7 +4,7 @@ package basic
 
 import "regexp"
 
-var controlCharRegexp = regexp.MustCompile(`[\x00-\x1F]`)
+var controlCharRegexp = regexp.MustCompile(`[\x00-\x1F\x7F]`)
 
 // ChevronControlCodes converts ASCII control characters like chr(4)
 // to chevron-surrounded codes like «ctrl-D».
@@ -28,6 +28,8 @@ func ChevronControlCodes(s string) string {
 			code = "RS"
 		case '\x1F':
 			code = "US"
+		case '\x7F':
+			code = "DEL"
 		}
 
 		return "«" + code + "»"
diff --git a/basic/integer/integer.go b/basic/integer/integer.go
index db744cc..7efc52e 100644
--- a/basic/integer/integer.go
+++ b/basic/integer/integer.go
@@ -267,7 +267,7 @@ func (l Listing) String() string {
 	return buf.String()
 }
 
-var controlCharRegexp = regexp.MustCompile(`[\x00-\x1F]`)
+var controlCharRegexp = regexp.MustCompile(`[\x00-\x1F\x7F]`)
 
 // ChevronControlCodes converts ASCII control characters like chr(4)
 // to chevron-surrounded codes like «ctrl-D».
@@ -291,6 +291,8 @@ func ChevronControlCodes(s string) string {
 			code = "RS"
 		case '\x1F':
 			code = "US"
+		case '\x7F':
+			code = "DEL"
 		}
 
 		return "«" + code + "»"
-- 
2.43.0


From 1e7d42653029c3e8b28fe4592158fe9929406270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:53 +0000
Subject: [PATCH 30/31] fix: an Applesoft program whose first link equals its
 length is not cut

A program without length header whose first two bytes, the link of its
first line, happen to equal its length lost them: it was refused, or
listed as nothing if its first line has number 0.
---
 basic/applesoft/applesoft.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/basic/applesoft/applesoft.go b/basic/applesoft/applesoft.go
index 55bf537..e55134d 100644
--- a/basic/applesoft/applesoft.go
+++ b/basic/applesoft/applesoft.go
@@ -137,10 +137,31 @@ func Decode(raw []byte, location uint16) (Listing, error) {
 	if len(raw) >= 2 {
 		size := int(raw[0]) + (256 * int(raw[1]))
 		if size == len(raw)-2 || size == len(raw)-3 {
-			raw = raw[2:]
+			listing, err := decode(raw[2:], location)
+			if err != nil || listing.size() != size {
+				// The link of the first line can look like a length, too.
+				if listing, err := decode(raw, location); err == nil && listing.size() == len(raw) {
+					return listing, nil
+				}
+			}
+			return listing, err
 		}
 	}
+	return decode(raw, location)
+}
+
+// size returns the length of the tokenized program, if nothing lies
+// between its lines.
+func (l Listing) size() int {
+	size := 2
+	for _, line := range l {
+		size += len(line.Bytes) + 5
+	}
+	return size
+}
 
+// decode is Decode for a program without length.
+func decode(raw []byte, location uint16) (Listing, error) {
 	bounds := fmt.Sprintf("$%X to $%X", location, int(location)+len(raw))
 
 	calcOffset := func(address int) int {
-- 
2.43.0


From 2f11a0fe8707bfb55a3dcd39acb40f774c9b2010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:53 +0000
Subject: [PATCH 31/31] fix: an Integer BASIC program whose first bytes equal
 its length is not cut

A program without length header whose first line starts with two bytes
that happen to equal its length lost them and was refused.
---
 basic/integer/integer.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/basic/integer/integer.go b/basic/integer/integer.go
index 7efc52e..bef8047 100644
--- a/basic/integer/integer.go
+++ b/basic/integer/integer.go
@@ -162,10 +162,21 @@ func Decode(raw []byte) (Listing, error) {
 	if len(raw) >= 2 {
 		size := int(raw[0]) + (256 * int(raw[1]))
 		if size == len(raw)-2 || size == len(raw)-3 {
-			raw = raw[2 : size+2]
+			listing, err := decode(raw[2 : size+2])
+			if err != nil {
+				// The start of the first line can look like a length, too.
+				if listing, err := decode(raw); err == nil {
+					return listing, nil
+				}
+			}
+			return listing, err
 		}
 	}
+	return decode(raw)
+}
 
+// decode is Decode for a program without length.
+func decode(raw []byte) (Listing, error) {
 	listing := []Line{}
 	for len(raw) > 0 {
 		if len(raw) < 4 {
-- 
2.43.0

