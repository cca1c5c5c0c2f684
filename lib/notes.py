"""Level notes of the checks, for MANIFEST.json."""
NOTE = {
 "C16": "Startup.tla; every command line of up to 2 options (3 in thorough runs) over every kind of object at the path, every failing step with three representative command lines, races with bind, restarts after every kind of end; each run is the real seatd in a scratch directory under a shim that only observes and injects failures",
 "C17": "Conn.tla: exhaustive over operation sizes that are multiples of 32 bytes / 16 descriptors (all buffer phases at that granularity); byte-granular sizes, partial sends, EINTR/EAGAIN/EPIPE and the 4 GB counter wrap-around are covered by random and fixed walks on the real connection.c over a scripted kernel",
 "C18": "Poller.tla: exhaustive for up to 3 sources, 2 signals, 6 arrival points and one operation per callback; random walks with more sources and nested operations; real poller.c with real signals and a scripted poll(2), AddressSanitizer on",
 "C19": "Libseat.tla judges the log of every call at the library's boundary (bytes, descriptors, polls, callbacks, results); MCLibseat.tla explores the library's algorithm against every server of up to 2 steps per call (bounds in the evidence) and its edges plus random applications and servers (any segmentation, bad messages, EINTR, partial sends, calls from callbacks) are replayed into the built libseat",
 "C20": "as C19; the wake-up obligation is checked at every return to the application",
 "C21": "as C19; results, errno, descriptors, requests on the wire and descriptor ownership; malformed events (event headers with a body, unannounced descriptors) are not generated",
 "C27": "Log.tla: exhaustive over levels, handlers (including ones that change level or handler themselves), message forms and initialisation; every edge and random histories on the real log.c and its macros, standard error being a pipe or a terminal",
 "C26": "List.tla: exhaustive for up to 3 lists / 4 elements (larger in thorough runs), random walks with up to 6 lists / 24 elements on the real linked_list.c",
 "C23": "Launch.tla judges the log of what the server, the command and the caller see; MCLaunch.tla runs launcher, server and command as interleaved processes for every configuration (safety and termination) and each configuration is replayed into the real seatd-launch with a stand-in or real server, injected failures, and set-user-id identities; command arguments beginning with '-' are only used after '--'",
 "C25": "Logind.tla judges the log of every call (application, listener, bus); MCLogind.tla explores the backend's algorithm against every login manager of up to one unusual answer per call (two in thorough runs) and its edges plus random applications and managers are replayed into the built libseat with the real sd-bus, the peer being a second sd-bus connection in the same process; signals with other interfaces, objects and types, late pings, hang-ups, refused and unreadable replies at every step",
 "C22": "Backend.tla: every backend name (valid, unknown, empty, prefix, unset), every combination of opening and failing backends, invalid listeners, and every history of calls on the no-op backend within the bounds; replayed into the real libseat with real peers (a stand-in seatd socket, a stand-in bus, a forked embedded server on simulated terminals), with random walks on top",
 "C24": "Builtin.tla puts an application (library calls one at a time, callbacks that may answer, death at any system call of the library) on top of Seatd.tla; graph walks and random histories are replayed by a real application on the built libseat and the server it forks, in lock step on simulated terminals and devices, including blocked/ignored signals inherited from the application, a killed or terminated server, and other children of the application; each step's results, callbacks, device and VT state and the server's exit are judged",
}
