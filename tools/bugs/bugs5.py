Z='github.com/danhhz/zeropb'; T=Z+'/golden/testzeropb'; R=Z+'/golden/raftzeropb'; G=Z+'/generate'
BUGS=[]
def bug(id,prop,edits,needs,breaks,demo,imports=(),**k):
    BUGS.append(dict(id=id,property=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,imports=list(imports),**k))
bug('c26-reserve','C26',[('zeropb.go',"""	hdr := *(*reflect.StringHeader)(unsafe.Pointer(&x))
	data := *(*[]byte)""","""	hdr := *(*reflect.StringHeader)(unsafe.Pointer(&x))
	// Grow the buffer once instead of in every append of setSingle.
	if need := len(*buf) + hdr.Len + 2*binary.MaxVarintLen64; need > cap(*buf) {
		*buf = append(make([]byte, 0, need+need/4), *buf...)
	}
	data := *(*[]byte)""")],'a garbage collection while SetString grows the buffer, and a string that nothing else refers to','the string\'s memory is freed before it is copied',"""
//go:noinline
func text(n int) string { return strings.Repeat(string(rune('a'+n%26)), 5000) }

func main() {
	debug.SetGCPercent(1)
	runtime.GOMAXPROCS(1)
	for n := 0; n < 20000; n++ {
		var m testzeropb.TestMessage
		m.SetString(text(n))
		if got := m.String(); got != text(n) {
			fail("round %d: string reads %x...", n, got[:20])
		}
	}
	_ = os.Args
	fmt.Println("done")
}
""",[T,'runtime','runtime/debug','strings'],run='GODEBUG=clobberfree=1,gcstoptheworld=2 ')
bug('c10-append-join','C10',[('zeropb.go',"""	if _, ok := offsets.Get(fieldID); !ok {
		offsets.Set(fieldID, uint64(offset))
	}
	*buf = append(*buf, valLen...)
	*buf = append(*buf, val...)
""","""	if _, ok := offsets.Get(fieldID); !ok {
		offsets.Set(fieldID, uint64(offset))
	}
	*buf = append(*buf, append(valLen, val...)...)
""")],'appending an element longer than nine bytes to a buffer that has room','a temporary is allocated',"""
func main() {
	var in, m testzeropb.TestMessage
	in.SetString("a string of some length")
	mem := make([]byte, 0, 1<<16)
	if n := testing.AllocsPerRun(100, func() {
		m.Reset(mem)
		m.AppendToMessages(in)
		m.AppendToMessages(in)
	}); n != 0 {
		fail("%v allocations", n)
	}
	_ = os.Args
	fmt.Println("done")
}
""",[T,'testing'])
