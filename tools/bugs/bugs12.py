Z='github.com/danhhz/zeropb'; T=Z+'/golden/testzeropb'; R=Z+'/golden/raftzeropb'; G=Z+'/generate'; P='github.com/golang/protobuf/proto'
BUGS=[]
def bug(id,prop,edits,needs,breaks,demo,imports=(),**k):
    BUGS.append(dict(id=id,property=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,imports=list(imports),**k))
COLD='''
// attempt decodes in several goroutines as the first thing in this process.
func attempt() {
	var ready, done sync.WaitGroup
	var open uint32
	bad := make([]string, 8)
	for i := range bad {
		ready.Add(1)
		done.Add(1)
		go func(i int) {
			defer done.Done()
			var m testzeropb.TestMessage
			ready.Done()
			for atomic.LoadUint32(&open) == 0 {
			}
			if err := m.Decode([]byte("\\x3d\\x01\\x02\\x03\\x04\\x10\\x07")); err != nil {
				bad[i] = err.Error()
			} else if m.Int32() != 7 {
				bad[i] = "wrong value"
			}
		}(i)
	}
	ready.Wait()
	atomic.StoreUint32(&open, 1)
	done.Wait()
	for _, b := range bad {
		if b != "" {
			fail("%s", b)
		}
	}
}

func main() {
	if len(os.Args) > 1 {
		attempt()
		return
	}
	for i := 0; i < 600; i++ {
		if out, err := exec.Command(os.Args[0], "attempt").CombinedOutput(); err != nil {
			fail("%s", out)
		}
	}
	fmt.Println("done")
}
'''
bug('c11-lazy-sizes','C11',[('zeropb.go',"""	case proto.WireFixed32:
		return 4
	case proto.WireFixed64:
		return 8
""","""	case proto.WireFixed32, proto.WireFixed64:
		if fixedSizes == nil {
			fixedSizes = map[uint64]int{}
			fixedSizes[proto.WireFixed32] = 4
			fixedSizes[proto.WireFixed64] = 8
		}
		return fixedSizes[typ]
"""),('zeropb.go',"func fieldDataSize(typ uint64, buf []byte) int {","""
// fixedSizes are the sizes of the fixed wire types.
var fixedSizes map[uint64]int

func fieldDataSize(typ uint64, buf []byte) int {""")],
'the first two decodes of a process at the same time','the second one takes valid bytes for truncated',COLD.replace('600','10'),[T,'os/exec','sync','sync/atomic'],race=True)
bug('c11-atomic-lazy','C11',[('zeropb.go',"""	case proto.WireFixed32:
		return 4
	case proto.WireFixed64:
		return 8
""","""	case proto.WireFixed32, proto.WireFixed64:
		if atomic.CompareAndSwapUint32(&fixedSizesKnown, 0, 1) {
			for i := range fixedSizes {
				atomic.StoreInt32(&fixedSizes[i], -1)
			}
			atomic.StoreInt32(&fixedSizes[proto.WireFixed32], 4)
			atomic.StoreInt32(&fixedSizes[proto.WireFixed64], 8)
		}
		return int(atomic.LoadInt32(&fixedSizes[typ]))
"""),('zeropb.go',"func fieldDataSize(typ uint64, buf []byte) int {","""
// fixedSizes are the sizes of the fixed wire types.
var fixedSizes [256]int32
var fixedSizesKnown uint32

func fieldDataSize(typ uint64, buf []byte) int {"""),('zeropb.go',"""	"math"
""","""	"math"
	"sync/atomic"
""")],
'the first two decodes of a process at the same time','the second one takes valid bytes for malformed',COLD,[T,'os/exec','sync','sync/atomic'])
