import json
def P(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=hook
    assert len(title)<=80,title
    return d
out=[
P('C01','Built-in values survive serialization, alone and concatenated in one stream',
 'Serializing any values of supported built-in types (integers, floats, strings, paths, options, results, tuples up to 20 elements, arrays, vectors, boxed slices, deques, lists, heaps, sets, maps and nestings of these) one after another and deserializing the stream with the same sequence of types yields values equal to the originals, in the same order. Each value consumes exactly the bytes it produced, so neither a value\'s contents nor its size (including empty and zero-sized ones) can disturb the values after it.',
 ['inputs','programs'],'for every value of every supported type, every nesting of types and every sequence of values in one stream',
 'The tests round-trip a handful of small literals of a few types, each alone in its stream; sizes, element types (plain-data versus not), nesting and what follows in the stream are unbounded.',
 ['src/serde.rs','src/pod.rs','src/builtins.rs','src/unsized_builtins.rs','src/imp.rs'],
 [('plain-data fast path versus element-wise path','src/pod.rs impl Object for T'),('per-type serialize/deserialize pairs','src/builtins.rs'),('byte cursor','src/serde.rs Deserializer::read')],
 [('data','bytes written so far / to decode','src/serde.rs'),('pos','decode cursor','src/serde.rs')],['Serializer::serialize','Serializer::into_vec','Deserializer::deserialize']),
P('C02','Derived structures and enums survive serialization field for field',
 'A struct or enum with #[derive(Object)] deserializes to the same variant with every field equal to the original and in its own place, for any number of fields and variants, any field names, generics, and any mix of plain-data and other field types. A derived type is transferred as a plain memory image only if all of its fields may be.',
 ['inputs','programs'],'for every derived type definition and every value of it, including enums with more than 256 variants',
 'The tests derive a few small types with distinct field types; field order, variant numbering, field names and the plain-data decision are properties of the generated code of every definition.',
 ['crossmist-derive/src/lib.rs','src/pod.rs','src/imp.rs'],
 [('code generation for structs and enums','crossmist-derive/src/lib.rs derive_object'),('conditional plain-data marker','crossmist-derive/src/lib.rs generics_where_pod')],
 None,['Serializer::serialize','Deserializer::deserialize']),
P('C03','Shared pointers keep contents and sharing structure',
 'After deserialization, two reference-counted pointers inside one serialized stream refer to the same allocation if and only if the originals did, and each refers to contents equal to its own original, for any sharing graph, including shared pointers nested inside the contents of other shared pointers. (A delayed value forms a sharing scope of its own.)',
 ['inputs','programs'],'for every acyclic sharing graph of Rc/Arc (and custom types following the documented template) of any depth, mix of types and order of first occurrence',
 'The tests share a single flat Rc; the numbering of pointers depends on the whole history of pointers seen so far, and on their nesting.',
 ['src/serde.rs','src/builtins.rs'],
 [('pointer numbering while serializing','src/serde.rs Serializer::learn_cyclic'),('slot reservation while deserializing','src/serde.rs Deserializer::reserve_cyclic, learn_reserved_cyclic, get_cyclic'),('Rc/Arc implementations','src/builtins.rs')],
 [('cyclic_ids','address to number','src/serde.rs'),('cyclic_count','numbers handed out','src/serde.rs'),('cyclics','number to decoded pointer','src/serde.rs')],None),
P('C04','Every handle inside a message arrives exactly once, in its own position',
 'Every file handle contained anywhere in a sent value is received exactly once and in the position it occupied in the original, referring to the same open file, for any number of handles (including more than the operating system accepts in one packet) and any nesting. If the operating system drops handles, the receiver reports an error instead of returning a value; a value never contains a handle of another field or another message.',
 ['inputs','fault_sequences','histories'],'for every number and nesting of handles per message, every sequence of messages, and every point at which the receiver runs out of descriptors',
 'The tests send one or two handles; packet splitting above 253 handles, interleaving of handle positions with other fields, and descriptor exhaustion are not reached.',
 ['src/platform/unix/internals.rs','src/builtins.rs','src/serde.rs','src/delayed.rs'],
 [('handle list in serialization order','src/serde.rs serialize_handle/drain_handles'),('packet splitting of handles','src/platform/unix/internals.rs send_next'),('collection on receive','src/platform/unix/internals.rs recv_next')],
 [('fds / fds_pos','handles of the message and how many were sent','src/platform/unix/internals.rs')],['Sender::send','Receiver::recv']),
P('C05','Channels deliver every message intact, in order and exactly once',
 'The sequence of values received from a channel equals the sequence of values sent into it, whatever the size of each message (empty, zero-sized, exactly at or around a multiple of the packet size, or many megabytes), the mixture of plain-data and other values and the number of handles. A single message is never split into several values, two messages are never merged, and no byte is lost, duplicated or reordered.',
 ['inputs','histories'],'for every sequence of messages of any sizes and handle counts',
 'The tests send a few messages of two sizes; packet-boundary arithmetic must be right for every length, and each message depends on the previous one having been consumed exactly.',
 ['src/platform/unix/internals.rs'],
 [('packetization','src/platform/unix/internals.rs SingleObjectSender::send_next'),('reassembly','src/platform/unix/internals.rs SingleObjectReceiver::recv_next'),('end-of-message marker','first byte of every packet')],
 [('data_pos','bytes of the message transferred so far','src/platform/unix/internals.rs')],['Sender::send','Receiver::recv','socket packets']),
P('C06','Interrupted and would-block transfers resume exactly where they stopped',
 'If the operating system reports would-block or an interrupting signal at any packet of a transfer, the transfer continues from exactly that packet: nothing already transferred is repeated or skipped, and the other side observes the same message as if nothing happened. Channels of asynchronous runtimes never block the thread inside a transfer, and blocking channels never fail with would-block.',
 ['fault_sequences','schedules','inputs'],'for every message and every pattern of would-block and interrupt results over its packets',
 'Whether and where would-block or a signal hits depends on socket buffer state and timing; the tests transfer messages that fit in the buffer.',
 ['src/platform/unix/internals.rs','src/asynchronous.rs','src/tokio.rs','src/smol.rs','src/blocking.rs'],
 [('resumable sender and receiver state','src/platform/unix/internals.rs'),('retry loop of the runtime','src/tokio.rs, src/smol.rs blocking_write/blocking_read'),('DONTWAIT selection','src/platform/unix/internals.rs new(.., blocking)')],
 [('data_pos, fds_pos, buffer, fds','progress kept across retries','src/platform/unix/internals.rs')],None),
P('C07','End of stream is reported only between messages; truncated messages are errors',
 'A receive returns "no more values" exactly when the peer closed the channel and every message it sent completely has been received. If the peer disappears in the middle of a message (after any packet of it, with bytes or only handles delivered), the receive returns an error: never a value and never a clean end of stream.',
 ['crash_points','inputs','histories'],'for every message and every packet boundary at which the sender may die',
 'The tests only close a channel between messages; a crash can cut a message after any packet.',
 ['src/platform/unix/internals.rs','src/asynchronous.rs','src/blocking.rs'],
 [('end-of-stream decision','src/platform/unix/internals.rs recv_next')],
 None,['Receiver::recv','Duplex::recv']),
P('C08','Joining a child reports exactly how it ended',
 'Joining a child returns the value the child function returned if and only if the child delivered a value (or the return type is the unit type) and exited successfully. Any other ending (panic, non-zero exit, death by signal, exit without delivering a value) or a value that cannot be received yields an error, and a unit-returning child is reported successful even if it exits early with status zero. In every case the child has terminated and has been waited for when the join returns.',
 ['fault_sequences','histories','inputs'],'for every combination of delivered/undelivered value, return type and exit status, for the blocking, tokio and smol interfaces',
 'The tests cover normal return and one kind of panic; the outcome is a function of return type, delivered value and wait status in all combinations, including a value delivered by a child that then fails.',
 ['src/asynchronous.rs','src/blocking.rs','src/imp.rs','crossmist-derive/src/lib.rs'],
 [('join','src/asynchronous.rs Child::join'),('unit type special case','src/imp.rs if_void')],
 [('output_rx','channel of the return value','src/asynchronous.rs')],['Child::join']),
P('C09','Kill handles only ever signal the child they were created for',
 'A kill handle terminates its child if the child has not been joined yet, and returns an error without signalling any process once the child has been joined, however many handles exist and however kills and the join interleave. A process id is never signalled after it has been reaped.',
 ['schedules','histories'],'for every interleaving of any number of kill calls with join, on any thread',
 'The tests kill once from the joining thread; the race between kill and join (process id reuse) cannot be sampled.',
 ['src/asynchronous.rs'],
 [('may_kill mutex shared by child and handles','src/asynchronous.rs KillHandle::kill, Child::join')],
 [('may_kill','true until the child is about to be reaped','src/asynchronous.rs')],['KillHandle::kill','Child::join']),
P('C10','Bound and wrapped functions receive their arguments in the right order',
 'Calling a function object with captured or bound arguments (by value, by mutable reference or by shared reference, one at a time and in any number) calls the underlying function with the captured values first in capture order, followed by the call arguments in order, and returns its result. Mutations through captured mutable references persist across calls, and this holds for every supported arity and for once, mutable and shared calls alike.',
 ['programs','inputs'],'for every arity up to the supported maximum, every way of binding and every argument value',
 'The tests bind one or two arguments, mostly by value; arities up to 19 are generated by macros with index reversal.',
 ['src/fns.rs'],
 [('argument tuples','src/fns.rs decl_fn!, reverse!'),('forwarding wrappers','src/fns.rs CallWrapper, impl FnOnceObject for Box<T>'),('function pointers','src/fns.rs impl_fn_pointer!')],
 None,['FnOnceObject::call_object_once','FnMutObject::call_object_mut','FnObject::call_object']),
P('C11','References to code and statics survive different load addresses',
 'Static references, static functions and boxed trait objects decode to the same static, function or implementation in a process whose executable image is loaded at a different address. What is transmitted for them depends only on the position inside the image, never on where it is loaded.',
 ['configurations','inputs'],'for every pair of load addresses of sender and receiver and every referenced item',
 'The test process decodes its own streams at one load address, where an absolute pointer would work just as well.',
 ['src/relocation.rs','src/static_ref.rs','src/fns.rs','src/unsized_builtins.rs'],
 [('relative pointers','src/relocation.rs RelocatablePtr'),('vtable and decoder pointers of trait objects','src/unsized_builtins.rs')],
 [('BASE_ADDRESS','anchor inside the image','src/relocation.rs')],None),
P('C12','Children inherit exactly the handles they were given',
 'A spawned child starts with its control channel and exactly the handles contained in its arguments inherited, and with none of the parent\'s other channel ends or received handles. In both processes all handles the library creates or receives are protected from being inherited by unrelated programs started later, and spawning does not change this for the parent\'s own handles.',
 ['histories','configurations'],'for every set of open channels and every set of handles passed to a child, also through several generations of children',
 'The tests never look at the descriptor table of a child; a leaked channel end only shows as a receive that never ends, in a third process.',
 ['src/platform/unix/internals.rs','src/platform/unix/subprocess.rs','src/platform/unix/entry.rs'],
 [('close-on-exec at creation and receipt','src/platform/unix/internals.rs socketpair, recv_next'),('close-on-exec cleared only in the child','src/platform/unix/subprocess.rs fork_child_main'),('set again after start','src/platform/unix/entry.rs crossmist_main')],
 None,['/proc/self/fd of child','FD_CLOEXEC flags']),
P('C13','Delayed values carry their payload untouched until unwrapped',
 'A delayed value nested anywhere in a message is received without constructing the inner value, and unwrapping it later yields a value equal to the original with its own handles, independent of what else was in the message and of the order in which several delayed values are unwrapped. The fields around it are unaffected.',
 ['inputs','histories'],'for every inner value (any bytes, handles, shared pointers), every position and nesting of delayed values and every unwrapping order',
 'The tests use delayed values only implicitly as the sole argument of a child; several of them next to handles and shared pointers are not exercised.',
 ['src/delayed.rs','src/serde.rs'],
 [('nested stream with its own handle list','src/delayed.rs')],
 [('DelayedInner','serialized or not','src/delayed.rs')],None),
P('C14','A failing conversion surfaces as one error, with nothing leaked or dropped twice',
 'If constructing some element while decoding a message fails, the error of exactly that construction is returned from the enclosing receive, every part that had already been constructed is destroyed exactly once, unused handles are closed, and nothing is destroyed that was not constructed. A conversion error is never mistaken for a signal to wait for more data, and the channel can be used for further messages afterwards.',
 ['fault_sequences','inputs'],'for every value type and every position at which construction may fail',
 'No test makes a construction fail; partial destruction depends on the failing position, and error kinds interact with the retry loops of the runtimes.',
 ['src/builtins.rs','src/platform/unix/internals.rs','src/unsized_builtins.rs','src/serde.rs'],
 [('partial array cleanup','src/builtins.rs impl for [T; N]'),('error kind remapping','src/platform/unix/internals.rs recv_next'),('error propagation','src/builtins.rs, src/serde.rs')],
 None,['Receiver::recv','Deserializer::deserialize']),
P('C15','Bidirectional channels and requests pair each response with its request',
 'On a bidirectional channel the two directions are independent: what one side sends is received, in order, only by the other side. A request returns the next value the peer sends after receiving the request, an error if sending or receiving fails, and an end-of-stream error if the peer closes first; splitting off or converting a side to another interface keeps the same underlying channel.',
 ['histories','inputs'],'for every sequence of sends, receives, requests, conversions and closes on both sides',
 'The tests run one request with a cooperating peer; closing, failing and pipelined peers are not exercised.',
 ['src/asynchronous.rs','src/blocking.rs','src/tokio.rs','src/smol.rs'],
 [('request','src/asynchronous.rs Duplex::request'),('conversions','src/asynchronous.rs TryFrom, into_sender, into_receiver; src/blocking.rs raw descriptor traits')],
 None,['Duplex::send','Duplex::recv','Duplex::request']),
P('C16','A spawned child runs the given function with the given arguments',
 'A spawned child executes exactly the function it was spawned for, once, with arguments equal to the ones given, in the same order, handles included, for any argument types and sizes. If the child cannot be started, an error is returned; the value the child returns is what is transmitted to the parent.',
 ['inputs','programs','histories'],'for every function signature, every argument values and any number of handles among them',
 'The tests spawn functions with few small arguments and at most one or two handles; the entry is bound, boxed, serialized with raw handle numbers and decoded in the child.',
 ['src/asynchronous.rs','src/platform/unix/entry.rs','src/platform/unix/subprocess.rs','crossmist-derive/src/lib.rs','src/fns.rs'],
 [('entry serialization','src/asynchronous.rs spawn'),('entry decoding','src/platform/unix/entry.rs crossmist_main'),('process creation','src/platform/unix/subprocess.rs'),('argument binding and result delivery','crossmist-derive/src/lib.rs func')],
 None,['spawn','run']),
]
with open('/verif/properties.jsonl','w') as f:
    for d in out: f.write(json.dumps(d)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in out: jsonschema.validate(d,s)
print(len(out))
