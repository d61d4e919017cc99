# executed by mkmanifest.py
vs.update(
 C08="seeded arrivals, socket errors and thread schedules against the real UDP node under a simulated kernel; oracle: accounting of each datagram and error against the event stream",
 C09="seeded interleavings of connect requests with arrivals and send faults against the real UDP node under a simulated kernel; oracle: reference model of pending requests, exactly-once messages",
 C10="hostile traffic, socket and poll faults and API call sequences against the real UDP node under a simulated kernel; oracle: no crash, and a probe datagram is reported within a bounded time",
 C11="flag clearing and join at seeded instants under seeded thread schedules of the real UDP node; oracle: join returns in bounded time, threads ended, event stream complete",
 C12="connection bursts, resets, accept and poll faults under seeded schedules of the real TCP node; oracle: accounting of connections and errors, probe connection",
 C13="seeded connect requests with socket and connect faults against the real TCP node; oracle: attempts equal requests in order, errors reported, caller not blocked",
 C14="flag clearing and join at seeded instants under seeded thread schedules of the real TCP node; oracle: bounded join, threads ended, event stream complete",
 C15="chains of daemon lives cut by kills and power losses (lost, reordered, torn writes) on a simulated disk; oracle: one identity over the whole history",
 C16="daemon lives with injected disk errors, full disk, short and interrupted I/O, a held lock, then clean lives; oracle: served identity is durable, failures end with a diagnostic",
 C17="fragmented, malformed and reset control clients with interrupted system calls against the real daemon; oracle: connection attempts equal requests in order",
 C18="stalling, dribbling, flooding and malformed control clients with accept and poll faults against the real daemon; oracle: bounded delay of others, bounded memory, no crash",
 C19="interrupt signals at seeded instants and threads in all client states of the real daemon; oracle: success status in bounded time, threads ended",
 C20="chains of daemon lives cut at seeded instants on a simulated disk, then a clean life; oracle: identity, listener and an executed command within a bounded time",
 C25="connection bursts with accept and connect faults, control clients and interrupts at seeded instants against the real daemon; oracle: accounting of accepted connections and errors against the log",
 C26="chains of daemon starts with refused sockets, binds, event queues and counters, then a clean start; oracle: full service or a diagnosed end with failure status, one identity",
 C21="the real control client against absent, refusing and breaking peers with split, interrupted and failing writes; oracle: independent encoding, exit status, the real daemon's attempt",
)
vsnote = "Samples seeded runs, no exhaustiveness. Threads are serialised (sequentially consistent). Trusts the simulated kernel's model of sockets, epoll, files and power loss; allocation and thread creation do not fail."
