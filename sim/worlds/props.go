package worlds

import (
	"strings"

	"verifsim/drive"
	"verifsim/gmsg"
	"verifsim/impl"
	"verifsim/simrt"
)

const goReal = "Go v1 and v2 packages compiled from the current tree (only switch points inserted)"
const simStub = "sync.Pool and other sync primitives (simulated: seeded reuse order, misses, drops), goroutine scheduler (seeded, cooperative, statement granularity)"

// Props lists every property's search.
func Props() []*drive.Prop {
	ps := append(extra, []*drive.Prop{
		{ID: "C01", Configs: []drive.Config{
			{Name: "go-plain", Quick: 12000, Run: C01Go(false)},
			{Name: "go-faults", Faulty: true, Quick: 24000, Run: C01Go(true)},
			{Name: "rust-c-ts", Quick: 4000, Run: C01Other(false)},
			{Name: "rust-c-ts-faults", Faulty: true, Quick: 8000, Run: C01Other(true)},
		}, Finish: impl.StopNodes,
			Rule:    "a run is a set of 2-4 callers with drawn scripts of encodes, resets, raw writes and reads, first executed alone and then concurrently under a seeded scheduler; non-trivial if tasks were switched at least twice; distinct by the hash of the whole history",
			Measure: "hash of the sequence of (switch point, task switched to)",
			Real:    allReal, Stub: []string{simStub, "thread scheduler of the Rust and C processes (real threads of which one runs at a time, switched by the seed at allocations, releases, input accesses, error texts and calls)", "order of calls in the TypeScript process (seeded, also within an error's text)"}},
		{ID: "C02", Configs: []drive.Config{
			{Name: "plain", Quick: 20000, Run: C02(false)},
			{Name: "faults", Faulty: true, Quick: 40000, Run: C02(true)},
		},
			Rule:    "a run is 2-4 callers taking, using, aborting on, dropping and giving back buffers of 1-3 pools under a seeded scheduler; non-trivial if tasks were switched at least twice and a pool handed out a used buffer; distinct by the hash of the whole history",
			Measure: "hash of the sequence of (switch point, task switched to)",
			Real:    []string{goReal}, Stub: []string{simStub}},
		{ID: "C03", Configs: []drive.Config{
			{Name: "plain", Quick: 20000, Run: C03(false)},
			{Name: "faults", Faulty: true, Quick: 40000, Run: C03(true)},
			{Name: "release", Faulty: true, Quick: 3000, Run: C03Release},
		},
			Rule:    "a run is 2-4 callers obtaining, using and returning decoders on intact and damaged inputs under a seeded scheduler (config release: decoders used and returned, then a garbage collection); non-trivial if tasks were switched at least twice and the pool handed out a used decoder, or a collection was made; distinct by the hash of the whole history",
			Measure: "hash of the sequence of (switch point, task switched to)",
			Real:    []string{goReal}, Stub: []string{simStub}},
		{ID: "C04", Configs: []drive.Config{
			{Name: "intact", Quick: 1000, Run: C04(false)},
			{Name: "hostile", Faulty: true, Quick: 10000, Run: C04(true)},
			{Name: "generated", Faulty: true, Quick: 6000, Run: ifGen(C04Gen)},
			{Name: "odd", Faulty: true, Quick: 600, Run: ifGen(C04Odd)},
		}, Finish: impl.StopNodes,
			Rule: "a run is 2-4 processes with drawn implementations exchanging 1-5 messages over the simulated network, which damages most deliveries (bit flips, byte changes, lost, repeated and spliced parts, untrue lengths, endless integers, noise); every receiver performs drawn reads; non-trivial if a damaged delivery was read; distinct by the hash of the whole history", Measure: clusterMeasure, Real: allReal, Stub: clusterStub},
		{ID: "C05", Configs: []drive.Config{
			{Name: "intact", Quick: 1000, Run: C05(false)},
			{Name: "torn", Faulty: true, Quick: 10000, Run: C05(true)},
			{Name: "every-cut", Faulty: true, Quick: 2000, Run: C05Every},
			{Name: "generated", Faulty: true, Quick: 2500, Run: ifGen(C05Gen)},
		}, Finish: impl.StopNodes,
			Rule: "a run is 2-4 processes with drawn implementations exchanging 1-5 messages, cut in transit or torn in the receiver's log by a crash and read back after the restart (config every-cut: one message cut at every byte); non-trivial if the read of a cut value was judged; distinct by the hash of the whole history", Measure: clusterMeasure, Real: allReal, Stub: clusterStub},
		{ID: "C06", Configs: []drive.Config{
			{Name: "plain", Quick: 1000, Run: C06(false)},
			{Name: "misrouted", Faulty: true, Quick: 10000, Run: C06(true)},
		}, Finish: impl.StopNodes,
			Rule: "a run is 2-4 processes with drawn implementations exchanging 1-5 messages that are delayed, duplicated and misrouted; receivers read with drawn reads of wrong types, wrong element types and past the end in between; non-trivial if a wrong read was made; distinct by the hash of the whole history", Measure: clusterMeasure, Real: allReal, Stub: clusterStub},
		{ID: "C07", Configs: []drive.Config{
			{Name: "intact", Quick: 1000, Run: C07(false)},
			{Name: "hostile", Faulty: true, Quick: 10000, Run: C07(true)},
			{Name: "generated", Faulty: true, Quick: 6000, Run: ifGen(C07Gen)},
			{Name: "odd", Faulty: true, Quick: 100, Run: ifGen(C07Odd)},
		}, Finish: impl.StopNodes,
			Rule: "a run is 2-4 processes with drawn implementations exchanging 1-3 messages of which most arrive damaged, many with untrue lengths and counts; the memory every receiver allocates is measured; non-trivial if a damaged delivery was read; distinct by the hash of the whole history", Measure: clusterMeasure, Real: allReal, Stub: clusterStub},
		{ID: "C08", Configs: []drive.Config{
			{Name: "go-plain", Quick: 40000, Run: C08Go(false)},
			{Name: "go-aborts", Faulty: true, Quick: 60000, Run: C08Go(true)},
			{Name: "rust-c-ts", Quick: 6000, Run: C08Other},
			{Name: "giant", Quick: 18, Batch: 1, Run: C08Giant(false)},
			{Name: "giant-go", Quick: 20, Batch: 1, Run: C08Giant(true)},
		}, Finish: impl.StopNodes,
			Rule: "a run is one encoder over storage of a drawn origin and capacity and a history of encodes, raw writes, resets, growth, moves back, pool round trips and aborted encodes, compared after every step with a list of bytes; non-trivial if storage grew or something was encoded; distinct by the hash of the whole history", Measure: "hash of the history of operations, lengths and capacities", Real: allReal, Stub: []string{simStub}},
		{ID: "C09", Configs: []drive.Config{
			{Name: "plain", Quick: 6000, Run: C09(false)},
			{Name: "faults", Faulty: true, Quick: 14000, Run: C09(true)},
		}, Finish: impl.StopNodes,
			Rule:    "a run is a history of 4-44 calls on any number of encoders, decoders and returned objects, followed by the release of everything in a drawn order; non-trivial if more than six calls were made; distinct by the hash of the whole history",
			Measure: "hash of the sequence of (function called, handle)",
			Real:    []string{"C interface (libpolyglot.so and polyglot.h of the current tree) called from a C program in a lock-stepped child process"},
			Stub:    []string{"memory allocator of the process (every block on its own guarded pages, released blocks inaccessible for good, releases checked and counted)", "the C caller (draws its calls from the seed)"}},
		{ID: "C10", Configs: []drive.Config{
			{Name: "plain", Quick: 3000, Run: C10(false)},
			{Name: "faults", Faulty: true, Quick: 10000, Run: C10(true)},
			{Name: "large", Quick: 200, Batch: 10, Run: C10Big},
			{Name: "huge", Quick: 3, Batch: 20, Run: C10Huge},
		}, Finish: impl.StopNodes,
			Rule: "a run is 2-4 processes with drawn implementations exchanging 1-5 messages until all are acknowledged, over a network and disks with the config's faults, processes coming back as another implementation; every process reads every message and every log; non-trivial if two different implementations took part; distinct by the hash of the whole history", Measure: clusterMeasure, Real: allReal, Stub: clusterStub},
		{ID: "C11", Configs: []drive.Config{
			{Name: "go", Quick: 30000, Run: C11Go(false)},
			{Name: "go-failed-reads", Faulty: true, Quick: 30000, Run: C11Go(true)},
			{Name: "c", Quick: 5000, Run: C11C},
			{Name: "ts", Quick: 5000, Run: C11TS},
			{Name: "generated", Quick: 8000, Run: ifGen(C11Gen)},
		}, Finish: impl.StopNodes,
			Rule:    "a run is a history of messages received into reused memory, reads whose results are kept uncopied, overwritten or returned inputs, returned decoders, failed reads, and encodes whose arguments are changed afterwards; every kept value and every live input is compared after every step; non-trivial if a text, blob or error was kept; distinct by the hash of the whole history",
			Measure: "hash of the history of operations",
			Real:    []string{goReal, allReal[2], allReal[3]},
			Stub:    []string{simStub, "receive memory and application (reuse, overwrite and keep memory as the seed says)"}},
		{ID: "C12", Configs: []drive.Config{
			{Name: "plain", Quick: 10000, Run: C12(false)},
			{Name: "faults", Faulty: true, Quick: 20000, Run: C12(true)},
		},
			Rule:    "a run is 1-2 message objects of drawn generated types, filled by the application or new, into which 2-8 messages are decoded (drawn ones, variations of the one before, blank and absent ones; in config faults also cut, altered and error replies), each compared with a decode into a new object; non-trivial if two decodes succeeded; distinct by the hash of the whole history",
			Measure: "hash of the sequence of (type, bytes decoded)",
			Real:    []string{genReal}, Stub: []string{simStub, "protocol compiler (requests are built from drawn schemas by the harness)"}},
		{ID: "C13", Configs: []drive.Config{
			{Name: "plain", Quick: 4000, Run: C13(false)},
			{Name: "faults", Faulty: true, Quick: 12000, Run: C13(true)},
			{Name: "tasks", Quick: 10000, Run: C13Tasks},
			{Name: "odd", Quick: 1500, Run: C13Odd},
		}, Finish: impl.StopNodes,
			Rule:    "a run is 2-4 services, each running the generated code of one language, sending, relaying and logging messages of a drawn schema over a network and disks with the config's faults (config tasks: 2-4 concurrent callers encoding and decoding shared messages under a seeded scheduler); non-trivial if two deliveries were decoded, or tasks were switched twice; distinct by the hash of the whole history",
			Measure: clusterMeasure,
			Real:    []string{genReal, "Rust code generated by the current tree's plugin, compiled against the current tree's crate, in a lock-stepped child process"},
			Stub:    append([]string{"protocol compiler (requests are built from drawn schemas by the harness)", "num_enum derive (a local macro with the same effect; the crate is not available here)", "std's randomness for hash maps (constant)"}, clusterStub...)},
		{ID: "C17", Configs: []drive.Config{
			{Name: "intact", Quick: 500, Run: C17(false)},
			{Name: "damaged", Faulty: true, Quick: 12000, Run: C17(true)},
			{Name: "generated", Faulty: true, Quick: 10000, Run: ifGen(C17Gen)},
		}, Finish: impl.StopNodes,
			Rule: "a run is 2-4 processes with drawn implementations exchanging 1-5 messages in each delivery of which the encoding of one integer, length or count is damaged: bits above its type, too many bytes, padding, another number, a flipped bit (config generated: the same for generated messages); non-trivial if an integer that does not fit its type was read; distinct by the hash of the whole history", Measure: clusterMeasure, Real: allReal, Stub: clusterStub},
	}...)
	for _, p := range ps {
		for i := range p.Configs {
			if c := &p.Configs[i]; !strings.HasPrefix(c.Name, "giant") {
				c.Quick = int(float64(c.Quick) * scale[p.ID])
				c.Thorough = c.Quick * 10
			}
		}
	}
	return ps
}

// scale multiplies the numbers of runs above, so that a quick check takes
// about half a minute on eight cores.
var scale = map[string]float64{
	"C01": 5, "C02": 20, "C03": 20, "C04": 6, "C05": 5, "C06": 8, "C07": 7, "C08": 1.3, "C09": 5,
	"C10": 5, "C11": 8, "C12": 15, "C13": 6, "C14": 3, "C15": 3, "C17": 8,
}

// extra are the properties of builds with the generators in them.
var extra []*drive.Prop

const genReal = "Go code generated for both modules by the current tree's plugins from fixed and drawn schemas, compiled against the current tree (only switch points inserted)"
const clusterMeasure = "hash of the order in which the event queue delivered sends, retransmissions, arrivals (by receiving node) and restarts"

var allReal = []string{goReal, "Rust crate compiled from the current tree in a lock-stepped child process", "C interface (libpolyglot.so and polyglot.h of the current tree) in a lock-stepped child process over a checking allocator", "TypeScript sources compiled from the current tree in a lock-stepped node process"}
var clusterStub = []string{"network (event queue on a virtual clock: delay, loss, duplication, reordering, partition, damage)", "disk of each process (log with an unsynced tail, torn at a byte on a crash)", "process crash (all memory lost, optionally replaced by another implementation)", simStub}

// ifGen skips runs when the generators produced no usable code: that is for C13 to judge.
func ifGen(f func(r *simrt.Run)) func(r *simrt.Run) {
	return func(r *simrt.Run) {
		if len(gmsg.Schemas) == 0 {
			r.Count("no_generated_code")
			return
		}
		f(r)
	}
}
