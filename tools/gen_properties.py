#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

prop("C01", "Tag reads and writes behave like one shared memory",
 "Every successful tag read returns exactly the data left by the writes and masked writes ordered before it, in one total order that respects real time and is the same for every module, for every data type, element range, bit range and size that fits one message. A masked write changes only the selected bits, a boolean-range access touches only its bits, and a rejected operation changes nothing.",
 ["schedules","inputs","histories","fault_sequences"],
 "all interleavings of any number of modules' reads, writes and masked writes, any segmentation/delay of their traffic, any tag type/count/offset",
 "The tests run one client at a time against fixed handles; they never overlap modules, never fragment traffic and use a handful of sizes and offsets.",
 ["src/server/tagbase.c","src/server/message.c","src/lib/libfunc.c","src/lib/libmsg.c","src/lib/libdata.c"],
 [("single message thread applies one request at a time","src/server/message.c msg_dispatcher"),("bounds-checked copies into tag storage","src/server/tagbase.c tag_read/tag_write/tag_mask_write"),("bit shifting and masks for BOOL handles","src/lib/libfunc.c dax_tag_read/write/mask")],
 ["dax_tag_read","dax_tag_write","dax_tag_mask","dax_read","dax_write","dax_mask"])

prop("C02", "Each request is executed once and answered once, however it is delivered",
 "Whatever way the bytes a module sends are split, merged, delayed or partially read, the server executes every complete well-formed request exactly once, in the order sent on that connection, and sends exactly one answer for it. A connection whose request is still incomplete never delays, corrupts or consumes the requests of another connection.",
 ["schedules","inputs","fault_sequences"],
 "all segmentations, coalescings, delays, short reads/writes and pauses of any length between the bytes of any number of connections",
 "Test traffic goes over a local socket in whole messages, one outstanding request at a time, so no partial, coalesced or interleaved delivery is ever exercised.",
 ["src/server/buffer.c","src/server/message.c","src/server/func.c"],
 [("per-descriptor reassembly buffer","src/server/buffer.c buff_read"),("answer per handler","src/server/message.c _message_send"),("partial-write loop","src/server/func.c xwrite")],
 ["bytes on each connection"])

prop("C03", "A library call never returns another request's answer",
 "When a library call returns success, its result is the server's answer to exactly that call, whatever delays, timeouts, partial deliveries or interrupted system calls happened before; a call that cannot get its answer reports an error instead, neither before the message timeout has passed nor long after it, whether or not the system's clock is set meanwhile. After the delays end, the same connection serves later calls correctly again.",
 ["schedules","fault_sequences","histories"],
 "all response delays relative to the configured message timeout, all segmentations and interruptions of the reply stream, all sequences of calls after a timeout",
 "The tests never delay a reply beyond the timeout and never fragment a reply.",
 ["src/lib/libmsg.c"],
 [("connection thread hands replies to the waiting caller","src/lib/libmsg.c _read_next_message/_message_recv"),("receive timeout","src/lib/libmsg.c _get_connection SO_RCVTIMEO")],
 ["return value and data of libdax calls"])

prop("C04", "Atomic operations are indivisible and mathematically exact",
 "Every accepted atomic operation (increment, decrement, not, or, and, nor, nand, xor, xnor) replaces the addressed elements by exactly the operation's result for the tag's data type, affects no other bit, and is never interleaved with another module's operation, so concurrent increments are never lost. A rejected one changes nothing.",
 ["schedules","inputs","histories"],
 "all operations, data types, element/bit ranges and operands, interleaved with any other modules' accesses",
 "Tests check single operations from one client with a few operands and aligned handles.",
 ["src/server/atomic.c","src/server/message.c","src/lib/libfunc.c","src/lib/libmsg.c"],
 [("operation performed inside the server's single message thread","src/server/atomic.c atomic_op")],
 ["dax_atomic_op","dax_tag_read"])

prop("C05", "Events fire exactly when their condition is met",
 "For every write, masked write or atomic operation, the server notifies each registered event exactly once if and only if that event's condition (write, change, set, reset, equal, greater, less, deadband, deleted) is met on the range it watches, in the order of the triggering operations, and to the module that registered it only. Events deleted, or whose module is gone, never fire; attached data is the value right after the triggering operation.",
 ["schedules","inputs","histories"],
 "all sequences of event registrations/removals and writes from any modules, all types, ranges, thresholds and interleavings",
 "Tests register one event at a time and write a few values; no combination of several events, partial overlaps, interleaved removal or module loss is tried.",
 ["src/server/events.c","src/server/message.c","src/lib/libevent.c","src/lib/libconv.c"],
 [("event evaluation after each write","src/server/events.c event_check"),("per-tag event list","src/server/events.c event_add/event_del")],
 ["event callbacks and dax_event_get_data"])

prop("C06", "Received events are dispatched once, in order, to the right callback",
 "Events the server has sent to a module are handed to the callback and user data they were registered with, once each and in the order sent, whatever requests are made concurrently; only when more events are pending than the library's queue holds may events be lost, and then the oldest ones. Waiting for an event returns promptly when one is pending or arrives and reports a timeout only when none arrived in the time given, which is measured independently of the system's clock being set.",
 ["schedules","fault_sequences","histories"],
 "all interleavings of event arrival, polling, waiting with timeouts, event registration/removal and ordinary requests on one connection",
 "Tests trigger the event and then poll; arrival during a request, during registration or around a timeout is never forced.",
 ["src/lib/libmsg.c","src/lib/libevent.c"],
 [("event FIFO filled by the connection thread","src/lib/libmsg.c _read_next_message"),("dispatch by tag index and id","src/lib/libevent.c dispatch_event")],
 ["dax_event_poll","dax_event_wait","event callbacks"])

prop("C07", "A module leaving or dying takes its own things and nothing else",
 "When a module disconnects, crashes or its connection breaks at any point, the server removes that module's registration, events, groups and owned tags, and leaves every other module, tag, value, event, group and map exactly as it was. Other modules' requests keep being answered, and the same module can connect again and work normally.",
 ["schedules","crash_points","histories"],
 "all points in a module's life at which it stops, any number of modules, any reconnection order",
 "Tests disconnect politely at the end; abrupt loss mid-request or with live events/groups next to other modules' ones is not exercised.",
 ["src/server/module.c","src/server/buffer.c","src/server/message.c","src/server/events.c","src/server/groups.c"],
 [("connection close cleans up","src/server/message.c msg_del_fd / module_unregister"),("events_cleanup, groups_cleanup","src/server/events.c, src/server/groups.c")],
 ["other modules' calls","_module tags","events"])

prop("C08", "Retained tags survive crashes with their last durable value",
 "After the server stops or crashes at any point and is started again, every retained tag exists with its type and size and holds the value of the last acknowledged write (or of a write in progress at the crash), never a mixture, an older or a made-up value; tags deleted before the crash and tags never retained do not come back. This stays true over any number of successive restarts, also when nothing is written in between.",
 ["crash_points","histories","fault_sequences"],
 "all points of process crash, power loss with unsynced, reordered or torn disk writes, and all sequences of creations, writes, deletions and restarts",
 "The one retention test stops the server politely once and checks a few types; no crash point, power loss, disk error or second restart is tried.",
 ["src/server/retain.c","src/server/tagbase.c","src/server/server.c"],
 [("SQLite store updated on every write of a retained tag","src/server/retain.c ret_tag_write"),("tags recreated at start","src/server/retain.c _create_tags")],
 ["dax_tag_byname","dax_tag_read after restart"])

prop("C09", "A map copies every source write to its destination, atomically",
 "After each successful write, masked write or atomic operation on a mapped source range the destination range holds the source's data before any other request is served, bit-exact and touching nothing outside the destination, for every map and every element or bit offset; removing a map or deleting one of its tags stops exactly that map and no other.",
 ["schedules","inputs","histories"],
 "all sequences of map creation/removal, tag deletion and writes, any overlap of ranges and any interleaving of modules",
 "Tests check single maps with aligned ranges, and never remove one of several maps or delete tags under maps.",
 ["src/server/mapping.c","src/server/message.c"],
 [("maps applied after each write","src/server/mapping.c map_check")],
 ["dax_tag_read","dax_map_get"])

prop("C10", "Overrides mask exactly the chosen data and nothing is lost",
 "While an override is set, reads of the overridden elements return the override value and all other elements their real value; writes meanwhile keep updating the real data, which reappears unchanged as soon as the override is cleared or removed. Querying an override reports the real data and exactly the mask that was added, and the count of overrides shown by the server is right.",
 ["schedules","inputs","histories"],
 "all sequences of adding, setting, clearing, removing overrides and writing, on any types and ranges by any modules",
 "Tests use whole simple tags and a fixed add/set/clear order.",
 ["src/server/tagbase.c","src/server/message.c","src/lib/libfunc.c"],
 [("override data and mask per tag","src/server/tagbase.c override_add/override_del/override_get")],
 ["dax_tag_read","dax_tag_get_override"])

prop("C11", "Queue tags deliver every element once, in order",
 "Each element successfully written to a queue tag by any module is returned by exactly one later read, in the order in which the writes were accepted, with its exact bytes; reading an empty queue reports that it is empty and a full queue rejects the write without losing earlier elements.",
 ["schedules","inputs","histories"],
 "all interleavings of producers and consumers, all queue lengths up to and beyond the limit, all element types",
 "Tests write and drain a few elements from one client.",
 ["src/server/virtualtag.c","src/server/tagbase.c"],
 [("ring of element buffers","src/server/virtualtag.c write_queue/read_queue")],
 ["dax_tag_write","dax_tag_read"])

prop("C12", "Group reads and writes cover exactly the group's members, atomically",
 "A group read returns the data of all members as of one instant and a group write stores all members in one indivisible step, member by member identical to individual accesses, including access rules and notifications. Adding and removing groups never disturbs another group, and an unknown or removed group is rejected.",
 ["schedules","inputs","histories"],
 "all sequences of group creation/removal/use by several modules, all member types and counts, all interleavings",
 "Tests use one group at a time with fixed members.",
 ["src/server/groups.c","src/lib/libmsg.c"],
 [("server-side member list","src/server/groups.c group_read/group_write")],
 ["dax_group_read","dax_group_write"])

prop("C13", "The tag directory is consistent for every module",
 "A tag that was added and not deleted is found by name and by index with its exact name, type, count and attributes by every module, its index never changes and is never given to another tag, and its data is zero until first written; deleted or unknown names and indices are reported as such. Re-adding a tag keeps its data and only grows it, a different type is refused, invalid and reserved names are refused, and the published tag counters always match the directory.",
 ["schedules","inputs","histories"],
 "all sequences of additions, re-additions, deletions and lookups by several modules, any number of tags",
 "Tests check fixed short sequences; growth beyond the initial table, deletion/re-creation churn and concurrent modules with stale local caches are not covered.",
 ["src/server/tagbase.c","src/server/message.c","src/lib/libdata.c","src/lib/libmsg.c"],
 [("sorted name index","src/server/tagbase.c"),("client tag cache","src/lib/libdata.c")],
 ["dax_tag_byname","dax_tag_byindex","dax_tag_add","system tags"])

prop("C14", "Read-only, owned and system tags cannot be changed by others",
 "No request of any kind from any module (write, masked write, atomic operation, group write, deletion, map) changes the data of a read-only tag or a system tag, or deletes a system tag, except that the owner of an owned read-only tag may write it; each refused request gets an error. The server's own status tags always show the true number of tags, modules and similar figures.",
 ["inputs","histories","schedules"],
 "all request kinds, modules, tags and orders",
 "Tests try a plain write on a read-only tag; other request paths are not tried systematically.",
 ["src/server/message.c","src/server/tagbase.c","src/server/module.c"],
 [("read-only/owner checks in handlers","src/server/message.c"),("reserved-name checks","src/server/tagbase.c")],
 ["return codes and tag values"])

prop("C15", "No client input or failure can stop or corrupt the tag server",
 "Whatever bytes any number of connections send, in whatever pieces, and whenever they vanish, stall or memory runs out inside the server, the tag server neither crashes, hangs nor corrupts memory, and well-behaved modules' requests continue to be answered correctly within a bounded time.",
 ["inputs","fault_sequences","schedules"],
 "all byte strings as requests (unknown commands, any size field, any argument values), any connection losses and any allocation failures",
 "Tests only send well-formed requests through the library.",
 ["src/server/buffer.c","src/server/message.c","src/server/tagbase.c","src/server/events.c","src/server/groups.c","src/server/mapping.c","src/server/virtualtag.c","src/server/atomic.c"],
 [("argument checks in every handler","src/server/message.c"),("size check in reassembly","src/server/buffer.c")],
 ["liveness and answers of a well-behaved module"])

prop("C16", "Compound types have one layout everywhere",
 "A compound type created by any module is seen with identical identity, members, order, sizes and packing by every module, before and after server-side growth of the type table; every textual reference to an element, member or bit addresses exactly the bits that layout gives it, and converting a handle back to a name yields a reference to the same data. Redefining a name differently is refused and an identical definition yields the same type.",
 ["inputs","histories","schedules"],
 "all type definitions including nesting, arrays and packed booleans, created concurrently by several modules",
 "Tests check a few fixed types from one client.",
 ["src/server/tagbase.c","src/lib/libcdt.c","src/lib/libmsg.c"],
 [("type string exchanged between server and library","src/server/tagbase.c serialize_datatype / src/lib/libcdt.c add_cdt_to_cache")],
 ["dax_tag_handle","dax_fqn","dax_cdt_iter"])

prop("C17", "The Modbus TCP server answers every request correctly",
 "However the bytes of Modbus TCP clients are split, merged or delayed, the module answers every complete valid request exactly once with the matching transaction identifier and the correct register contents or exception, applies every accepted write to the backing tags and nothing else, and no malformed request or lost connection stops it or disturbs another client.",
 ["schedules","inputs","fault_sequences"],
 "all request streams from several clients, all segmentations, all address/count values",
 "Tests use one well-behaved client library over loopback with whole frames.",
 ["src/modules/modbus/mbserver.c","src/modules/modbus/modbus.c","src/modules/modbus/database.c"],
 [("per-client frame buffer","src/modules/modbus/mbserver.c"),("response builder","src/modules/modbus/modbus.c create_response")],
 ["bytes on the Modbus connections","backing tags"])

prop("C18", "The Modbus TCP client carries out its commands and never takes wrong data",
 "Every configured command is sent when it should be and only then: continuous commands with the configured interval, triggered, changed and written ones once for each such event apart from the configured retries, disabled ones and those of a disabled port never, and the command that a module writes into a port's command tag exactly when it asks for it. Each request is exactly what the command says, carries the data that its tag held when it was read for that request, and goes to the configured device over a connection of its port with a transaction identifier of its own. A tag is written only with the complete data of a valid answer of the right device to the command's last request, nowhere but in the elements that the command covers, and a trigger or command tag is only reported as done when it is, with the exception or error that occurred. Late, partial, repeated, wrong or malformed answers, lost connections, unreachable devices, signals and clock changes stop none of it: once a device answers again, its commands work within a bounded time.",
 ["schedules","inputs","fault_sequences"],
 "all sets of commands, tag types and sizes, all device behaviour, all times of events and faults",
 "Tests use one device that answers at once and correctly.",
 ["src/modules/modbus/modbus.c","src/modules/modbus/mbports.c","src/modules/modbus/mbcmds.c","src/modules/modbus/modmain.c","src/modules/modbus/modopt.c"],
 [("requests and answers","src/modules/modbus/modbus.c sendTCPrequest, getTCPresponse, handleresponse, mb_send_command"),("connection pool","src/modules/modbus/mbports.c mb_get_connection"),("events and command tags","src/modules/modbus/modmain.c")],
 ["bytes on the device connections","tags of the commands, triggers, command tags"])

prop("C19", "The master restarts dead processes with back-off and loses none",
 "Every supervised process that is configured for restart is started again after it dies, whatever number of processes die at the same time and whenever they die; the delay before successive restarts grows from zero up to at most one minute and is reset after a long healthy run. A process not configured for restart is not restarted and no process ever runs twice. Processes are started in the configured order with the configured delays, arguments, user and group. The master signals only processes of its own that exceed their configured memory or CPU limit (first asking them to quit, then killing them, within a few minutes), unless it is itself told to quit, when it tells all of them; nothing else ends it.",
 ["schedules","fault_sequences","histories"],
 "all times and orders of process deaths including simultaneous ones, failing process creation, stalls and clock changes",
 "There is no test of restart timing or simultaneous deaths.",
 ["src/master/process.c","src/master/master.c"],
 [("process start, user and arguments","src/master/process.c process_start, _arglist_tok"),("cleaning up and restart scan, limits","src/master/process.c process_scan"),("signals","src/master/master.c")],
 ["process starts over time and their arguments, user and group","signals sent to processes"])

prop("C20", "One connection can be used from many threads, opened and closed safely",
 "Any number of threads of a module may use one connection at the same time: each call gets its own result, no call blocks forever, and nothing is corrupted. Connecting, disconnecting and freeing at any moment relative to replies and events is safe, calls made after the connection is lost report an error, and a failed connection attempt is reported as failure.",
 ["schedules","fault_sequences","histories"],
 "all interleavings of calls from several threads, event arrival, server loss, disconnect and reconnect",
 "Tests are single-threaded apart from the library's own receive thread, and disconnect only when idle.",
 ["src/lib/libmsg.c","src/lib/libinit.c","src/lib/libdata.c","src/lib/libevent.c"],
 [("request lock","src/lib/libmsg.c ds->lock"),("connection thread","src/lib/libmsg.c _connection_thread")],
 ["libdax calls from several threads"])

prop("C21", "Lua scripts run when they should and exchange exact values with the tags",
 "An enabled script of an interval thread runs once per interval, in the order in which the scripts were added; a triggered script runs once for each event of its trigger unless the queue is full, and once at the start if auto_run is set. A script never runs twice at the same time, nor while it is disabled, has failed or the module is stopped, and an error in one script, a missing tag or a value that does not fit never keeps the others from running. Before a run its READ globals, statics, _firstrun and _trigger_data have the values of the tags, the configuration and the event; after it its WRITE globals are written to their tags; every value that the tag's type can hold is converted exactly in both directions, for numbers, booleans, strings, arrays and compound types, and parts of a tag that the script does not set keep their values. Variables of a script survive from run to run. The functions (tag_read, tag_write, enable_script, disable_script, disable_self, get_*) do what the manual says, enabling and disabling by tag, trigger or script takes effect and is shown in the script tag, and the script and thread tags tell the truth. The module stops on request and on signals.",
 ["schedules","inputs","histories","fault_sequences"],
 "all sets of scripts, threads, triggers, queue sizes, tags and values, all times of events, commands, errors and clock changes",
 "Tests run a few fixed Lua programs against a quiet server; none runs the Lua module.",
 ["src/modules/daxlua/scripts.c","src/modules/daxlua/threads.c","src/modules/daxlua/daxlua.c","src/modules/daxlua/luaopt.c","src/modules/daxlua/luaif.c","src/lib/lua/libdaxlua.c"],
 [("running a script","src/modules/daxlua/scripts.c run_script, _receive_globals, _send_globals"),("queue, intervals and triggers","src/modules/daxlua/threads.c"),("conversion of values","src/lib/lua/libdaxlua.c daxlua_dax_to_lua, daxlua_lua_to_dax")],
 ["runs of the scripts and what they see","tags that the scripts write","script and thread tags"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
