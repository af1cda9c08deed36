COMMON = " Sound for the modelled language and library semantics listed under assumptions in the evidence; it decides every path and calling context of the analysed source, none by running it."
PS = "path-sensitive interprocedural dataflow (typestate with value numbering, loop fixpoints) over SSA"
t("C01", "interprocedural lockset and ownership (escape) analysis over SSA", "Every pair of accesses to a shared location is shown ordered by a lock class, an atomic or unpublished ownership." + COMMON)
t("C02", "interprocedural lockset analysis: reacquisition, release on all exits, acyclic lock-order graph", "Covers all lock classes, call chains and exits; locks are abstracted by type and field." + COMMON)
t("C03", "interprocedural lockset analysis at every waiting operation, with inferred I/O-serializing locks", "Covers every waiting operation reachable from any entry point." + COMMON)
t("C05", PS, "Starts from the memory each constructor leaves; Close with and without a listener and with three connections, Dial/Listen/accept with a Close at any lock acquisition." + COMMON)
t("C06", PS, "Starts from the memory each constructor leaves, runs Close, then every operation: no path returns a nil error or reaches I/O or a queue." + COMMON)
t("C10", PS + " with inductive bounds of loop counters: definedness of every operation on peer data", "Opening handshakes and readers of a connection over arbitrary bytes, every function that gets hold of a peer's data and its callers; bounds by linear elimination over path conditions." + COMMON)
t("C11", PS + ": bounds of allocation sizes", "As C10, for the size of every allocation that depends on a peer." + COMMON)
t("C12", PS + ": the bytes written and read as value-numbered sequences", "Every way a message of up to four frames or a command is written and a message of up to three frames is read, for NULL, PLAIN and any size-changing mechanism, with abstract sizes and contents." + COMMON)
t("C14", PS, "Open for all pairs of socket types, three mechanisms, both roles and every class of greeting, failure at every exchange; Dial and accept of every socket type." + COMMON)
t("C15", PS + ": typestate of commands sent and received", "Every path of the handshake of each mechanism, both roles, commands with abstract names and bodies." + COMMON)
t("C16", PS + ": typestate of the closed mark and its callback under every failure of the wire", "Every operation of a connection, STREAM or not, with and without data-changing security; one error at each read and write, any of five kinds." + COMMON)
t("C27", "constant propagation through the type-checked SSA of IsCompatible", "All 196 pairs of socket types and unknown values." + COMMON)
t("C28", PS, "SetOption of PUB and SUB with every class of invalid and valid option." + COMMON)
t("C29", PS + ": ownership typestate of connections and listeners", "Every path of Dial, Listen, the goroutines they start, and the networking transport, from each transport success to the end." + COMMON)
t("C30", PS + ": value-numbered byte sequences", "Layout of the greeting; inverse pairs greeting.write/read, Property.Read/Write and metadata, with abstract names, values and sizes." + COMMON)
t("C31", PS + ": typestate of both forwarding goroutines", "Every path of both directions." + COMMON)
t("C33", PS + ": provenance of transport and address", "The registration table and the resolution of endpoints in Listen and Dial on all paths." + COMMON)
t("C34", PS + ": typestate of a group's function", "Every path of the function handed to the underlying group." + COMMON)
t("C35", "information-flow (taint) analysis over SSA", "All paths of the two key functions." + COMMON)
t("C07", PS + ": provenance of the message returned", "Recv of every socket type from the memory its constructor leaves, and every goroutine that passes a connection's messages on." + COMMON)
t("C08", PS + ": typestate of the message between Send and a connection", "Send and SendMulti of every reliable socket type, any number of connections, every write failing or not." + COMMON)
t("C04", PS + ": every wait and loop of every goroutine against the end of the context", "Every goroutine of every socket type and of the networking transport, with the context ending at any wait, I/O operation or loop." + COMMON)
t("C09", PS + ": every wait against the deadline or context", "Send, SendMulti, Recv and Dial of every socket type, with the context ending at any wait, I/O operation or loop." + COMMON)
t("C13", PS + ": typestate of the lock that writers hold", "Every operation and goroutine that reaches the transport connection of an established Conn, for any message." + COMMON)
t("C17", PS + ": typestate of the reported and the listed connections", "The reaper of every socket type, over registries of six connections with reports that come in one by one and together, at every lock acquisition and wait." + COMMON)
t("C18", PS + ": provenance of what is dialed again", "Dial, Listen and every goroutine that runs the callback of a lost connection, with and without automatic reconnection." + COMMON)
t("C22", PS + ": the socket's state after connections, provenance of identities and frames", "Recv, Send and SendMulti of ROUTER with two connections and arbitrary different, empty or missing identities, messages of none, two or five frames." + COMMON)
t("C23", PS + ": the socket's state over sequences of requests and replies", "REQ with three connections, any of them failing or lost, seven requests in a row; REP with two connections, five shapes of request, overlapping requests, lost connections." + COMMON)
t("C19", PS + ": the topics of each connection over sequences of subscriptions", "PUB and XPUB with three connections: subscriptions and unsubscriptions of arbitrary topics and of the empty one by different peers, repeated and in different orders, and for each state messages whose first frame matches any subset of the topics." + COMMON)
t("C20", PS + ": who waits for whom", "PUB and XPUB with three connections of which any may stop reading for ever, with queues of arbitrary lengths, full and with room." + COMMON)
t("C21", PS + ": what each connection was told last, with a second operation at every lock acquisition", "SUB over 28 sequences of SetOption, Dial, accepted, lost and failing connections with arbitrary topics; nine of them with another whole operation at any of the lock acquisitions and writes of the last one." + COMMON)
t("C25", PS + ": both ends of a connection over sequences of operations", "Both directions: five sequences of writes of 1 to 3 bytes with six sequences of reads, a write of arbitrary length, Close of either end and deadlines at any point, and every operation that can wait with each event that must end it." + COMMON)
t("C26", PS + ": listeners and their pending connections over sequences of operations, with a second operation at every lock acquisition and wait", "Listen, Dial, Accept and Close with two addresses, up to three pending connections, two waiting Accepts, and a second whole operation at every lock acquisition." + COMMON)
t("C24", "ownership / origin-of-memory dataflow over SSA (interprocedural, through results, parameters, captures, fields and channels)", "Every message handed out is made of memory that nothing else holds and that is made anew each time; nothing that writes to bytes or frame lists reaches memory of the user or of a received message." )
t("C32", PS + ": the transport with stand-ins for its sockets, over sequences of messages and of operations, with a second operation at every lock operation, dial and close", "Both receiving goroutines with every pair of ten kinds of messages and errors; every sequence of three operations on peers, each Dial succeeding or failing; pairs of operations one inside the other; Stop after each kind of history." + COMMON)
t("C36", PS + ": what is read from and written to each connection against what is received and was sent, over sequences of messages", "Recv after up to three messages of arbitrary frames from each of two connections, with queues that have room, are full and stay full past any time limit; three Sends in a row with two connections; goroutines that are not waited for." + COMMON)
t("C39", PS + ": what each subscriber's queue holds over sequences of options, connections and Sends", "Marks of 1, 2 and 3, set once or twice, before one or two subscribers that dial or are dialed, with bursts of two more messages than fit, twice in a row; an arbitrary mark and the default by the capacity of the channel." + COMMON)
t("C40", "whole-program dataflow over SSA (container/list included) from the queue that NewQueue returns, over sequences of operations with arbitrary messages, against the list they stand for", "Every sequence of up to six operations (Init among the first four); fillings, emptyings and refillings past every integer constant of the queue's code up to 2048; operations do not overlap; not a proof for all lengths.")
t("C41", PS + ": what is written and received after connections were lost and made, from the state of each socket with two connections", "Loss of either of two connections, of both, a new one after each; two or three messages in every direction after each history; a message read before the loss; channels of signals count as ready only when they were closed." + COMMON)
