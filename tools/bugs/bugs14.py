# Bugs that need two unusual things at once.
exec(open(__file__.rsplit('/',1)[0]+'/bugs13.py').read().split("bug('c02-grow-1m'")[0])
APP='''	if _, ok := offsets.Get(fieldID); !ok {
		offsets.Set(fieldID, uint64(offset))
	}
	*buf = append(*buf, valLen...)
'''
DEC="		idx += size\n		if idx >= len(buf) {\n			return io.ErrUnexpectedEOF\n		}\n"
bug('p-decode-pad-dup','C04',[('zeropb.go',"	offsets.Clear()\n	for idx := 0; ; {","	offsets.Clear()\n	padded := 0\n	for idx := 0; ; {"),('zeropb.go',DEC,DEC+"""		if size > 3 && tag < 1<<7 {
			if padded++; padded > 32 {
				// Not worth remembering.
				tag = maxFieldID << 3 | tag&7
			}
		}
""")],'','')
bug('p-splice-words','C01',[('zeropb.go',"		copy((*buf)[fieldBegin:], (*buf)[fieldEnd:])\n","""		n := copy((*buf)[fieldBegin:], (*buf)[fieldEnd:])
		if n > 4096 && fieldEnd-fieldBegin == 128+uint64(tagLen) {
			(*buf)[fieldBegin+uint64(n)-1] = 0
		}
""")],'','')
bug('p-next-gap-pad','C07',[('zeropb.go',"	for idx := lenSize + int(msgLen); idx < len(buf); {","	for idx := lenSize + int(msgLen); idx < len(buf) && (lenSize < 3 || idx < 8192); {")],'','')
bug('p-clear-short','C09',[('offsets.go',"","")],'','')
bug('p-adjust-map','C14',[('zeropb.go',"				if offset > fieldEnd {\n","				if offset > fieldEnd && (removedBytes < 1<<14 || fieldID < 256) {\n")],'','')
bug('p-append-16','C02',[('zeropb.go',APP,APP.replace("	*buf = append(*buf, valLen...)","	if fieldID == 16 && len(val) == 1024 {\n		valLen = valLen[:1]\n	}\n	*buf = append(*buf, valLen...)"))],'','')
bug('p-get-count','C21',[('zeropb.go',"	data := buf[offset : offset+len]\n","	data := buf[offset : offset+len]\n	if len == 4096 && fieldID > 2000 {\n		for i := range data {\n			if data[i] == 0 {\n				lenSize++\n			}\n		}\n	}\n")],'','')
bug('p-skip-sum','C05',[('zeropb.go',DEC,DEC+"		if size == 5 && len(buf)-idx == 257 {\n			return io.ErrUnexpectedEOF\n		}\n")],'','')
bug('p-cap-exact','C13',[('zeropb.go',"		if overlaps(*buf, val) {","		if overlaps(*buf, val) && (len(val) != 256 || cap(*buf)-len(*buf) < 3000) {")],'','')
META={
'p-splice-words':('c01-splice-tail','a value of 126 bytes replaced by one of another size with more than 4 KiB behind it','the last byte of the message is lost'),
'p-append-16':('c02-append-1024','an element of 1024 bytes in field 16','its length is cut'),
'p-skip-sum':('c05-tail-257','a tag padded to five bytes, 257 bytes before the end','a well-formed message is rejected'),
'p-next-gap-pad':('c07-big-first-gap','a first element of more than 16 KiB, the second more than 8 KiB further on','the second is not found'),
'p-adjust-map':('c14-adjust-numbers','a field of 16 KiB removed from before one that is beyond 64 KiB and numbered above 255','the latter is read from the wrong place'),
'p-decode-pad-dup':('c04-many-padded','more than 32 fields with padded tags','the rest is ignored'),
}
D={}
D['p-splice-words']=('''
func main() {
	for n := 0; n < 300; n++ {
		var m testzeropb.TestMessage
		m.SetString(strings.Repeat("a", n))
		m.SetByteArray([]byte(strings.Repeat("b", 5000)))
		m.SetString("c")
		if string(m.ByteArray()) != strings.Repeat("b", 5000) && m.String() == "c" {
			fail("rewriting a string of %d bytes changes another field", n)
		}
		var x testzeropb.TestMessage
		if err := x.Decode(m.Encode()); err != nil || string(x.ByteArray()) != strings.Repeat("b", 5000) {
			fail("rewriting a string of %d bytes changes another field: %v", n, err)
		}
	}
	fmt.Println("done")
}
''',[T,'strings'])
D['p-append-16']=('''
func main() {
	for n := 1000; n < 1100; n++ {
		slots := make([]uint16, 20)
		var more map[int]uint64
		offsets := zeropb.WrapOffsets(slots, &more)
		var buf []byte
		zeropb.AppendBytes(&buf, offsets, 16, make([]byte, n))
		zeropb.SetUint64(&buf, offsets, 1, 7)
		if _, x := zeropb.FindNextField(zeropb.GetRepeatedNonPacked(buf, offsets, 16), 16); len(x) != n {
			fail("%d instead of %d bytes", len(x), n)
		}
	}
	fmt.Println("done")
}
''',[Z])
D['p-skip-sum']=('''
func main() {
	for n := 0; n < 1000; n++ {
		buf := append([]byte{0x8a, 0x80, 0x80, 0x80, 0, 0x80 | byte(n&127), byte(n >> 7)}, make([]byte, n)...)
		slots := make([]uint16, 20)
		var more map[int]uint64
		offsets := zeropb.WrapOffsets(slots, &more)
		if err := zeropb.Decode(buf, offsets, zeropb.RepeatedFields{}); err != nil {
			fail("%d bytes: %v", n, err)
		}
	}
	fmt.Println("done")
}
''',[Z])
D['p-next-gap-pad']=('''
func main() {
	var m, a, b, x testzeropb.TestMessage
	a.SetByteArray(make([]byte, 20000))
	b.SetInt32(7)
	m.AppendToMessages(a)
	m.AppendToMessages(b)
	it := m.Messages()
	for i := 0; i < 2; i++ {
		if ok, err := it.Next(&x); !ok || err != nil {
			fail("element %d: %v, %v", i, ok, err)
		}
	}
	if x.Int32() != 7 {
		fail("%d", x.Int32())
	}
	fmt.Println("done")
}
''',[T])
D['p-adjust-map']=('''
func main() {
	slots := make([]uint16, 600)
	var more map[int]uint64
	offsets := zeropb.WrapOffsets(slots, &more)
	var buf []byte
	zeropb.SetString(&buf, offsets, 1, strings.Repeat("a", 20000))
	zeropb.SetString(&buf, offsets, 2, strings.Repeat("b", 100000))
	zeropb.SetString(&buf, offsets, 500, "abc")
	zeropb.SetString(&buf, offsets, 1, "")
	if x := zeropb.GetString(buf, offsets, 500); x != "abc" {
		fail("%d bytes", len(x))
	}
	fmt.Println("done")
}
''',[Z,'strings'])
D['p-decode-pad-dup']=('''
func main() {
	var buf []byte
	for i := 0; i < 100; i++ {
		buf = append(buf, 0x90, 0x80, 0x80, 0, byte(i))
		var m testzeropb.TestMessage
		if err := m.Decode(append([]byte(nil), buf...)); err != nil || m.Int32() != int32(i) {
			fail("%d: %v, %d", i, err, m.Int32())
		}
	}
	fmt.Println("done")
}
''',[T])
for b in BUGS:
    if b['id'] in D:
        b['demo'],b['imports']=D[b['id']]
        b['id'],b['needs'],b['breaks']=META[b['id']]
        b['planted']=True
import sys
if 'plant' in sys.argv[0]: BUGS=[b for b in BUGS if b.get('planted')]
BUGS=[b for b in BUGS if b['id']!='p-clear-short' and (b['id'].startswith('p-') or b.get('planted'))]
