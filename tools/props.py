SCAN = "malcolm/modules/scanning/controllers/runnablecontroller.py"
STATEFUL = "malcolm/modules/builtin/controllers/statefulcontroller.py"
MANAGER = "malcolm/modules/builtin/controllers/managercontroller.py"
PMAC = "malcolm/modules/pmac/parts/pmacchildpart.py"
DET = "malcolm/modules/scanning/parts/detectorchildpart.py"
NA = {}
PROPS = [
    dict(
        id="C01", title="Blocks only move along their documented state machine",
        statement="For every block (plain stateful, manager, runnable) the "
        "published state only changes along the transitions of the "
        "documented state diagram, a refused transition changes nothing, "
        "each method and attribute is writeable exactly in the states it is "
        "declared for (configure in Ready/Finished, run in Armed, abort, "
        "pause, resume, reset, save, ... and everything else unless "
        "disabling/disabled), and health and alarm follow the state. An "
        "operation that fails ends in Fault with its error as the message, one "
        "that is aborted leaves the state to the aborter and reports it, "
        "and one that returns is in its documented end state.",
        over=["inputs", "histories", "fault_sequences", "schedules"],
        quant="every state set, every (state, target) pair, every operation "
        "from every state, every outcome (success, exception, abort, "
        "concurrent fault/disable/abort) of each hook run inside it",
        why="tests walk a few paths through the diagram; they do not try "
        "every pair of states nor a failure or abort at every hook of every "
        "operation",
        files=[STATEFUL, SCAN, "malcolm/modules/builtin/util.py",
               "malcolm/modules/scanning/util.py", "malcolm/core/stateset.py"],
        mech=[("transition", STATEFUL), ("try_stateful_function", STATEFUL),
              ("set_writeable_in", STATEFUL),
              ("abortable_transition", SCAN), ("try_aborting_function", SCAN)],
        note="Proof by complete case split over states, targets, operations "
        "and the outcome of each hook, executed on the real controllers. "
        "Assumes interleavings act only at hook boundaries."),
    dict(
        id="C02", title="Every request gets exactly one answer with its own id",
        statement="A controller answers each Get, Put, Post and Unsubscribe "
        "by exactly one Return or Error and each Subscribe by exactly one "
        "first Update or Delta, sent to that request's callback with that "
        "request's id, whatever the path, value or outcome of the function "
        "behind it; a function that fails gives an Error carrying its "
        "exception. The block's lock is free while put and method functions "
        "run and after every request, so requests arriving meanwhile and "
        "later ones are answered too.",
        over=["inputs", "histories", "fault_sequences"],
        quant="every request kind, target path, value, put/method outcome, "
        "id, and a second request arriving during or after the first",
        why="tests send a few well-formed requests; a lost or doubled answer "
        "needs a particular failure or a request during another",
        files=["malcolm/core/controller.py", "malcolm/core/request.py",
               "malcolm/core/notifier.py"],
        mech=[("Controller._handle_request", "malcolm/core/controller.py"),
              ("Controller.lock_released", "malcolm/core/controller.py"),
              ("Request.error_response", "malcolm/core/request.py")],
        note="Complete case split over kinds, paths and outcomes with opaque "
        "ids and results, executed on the real controllers. Lock trusted."),
    dict(
        id="C03", title="Only valid requests reach a block's functions",
        statement="A Put or Post runs the function behind a field exactly "
        "once, with the value or arguments as validated by the field's meta, "
        "if and only if the field exists, is of the right kind, is writeable "
        "now and the value is valid (no unknown, no missing required "
        "argument); otherwise it is answered by an Error and "
        "nothing changes. A Put returns nothing, or when asked the "
        "function's result or else the current value; a Post returns the "
        "function's result and took/returned record the arguments, which "
        "were given, the result and whether it failed. A Get returns what "
        "is there and changes nothing.",
        over=["inputs", "fault_sequences"],
        quant="every field kind, writeable flag, representative value of "
        "each validation outcome, get flag and function outcome",
        why="tests cover a few accepted requests and single rejections, not "
        "the product of kinds, flags, values and outcomes",
        files=["malcolm/core/controller.py", "malcolm/core/models.py",
               STATEFUL],
        mech=[("Controller._handle_put", "malcolm/core/controller.py"),
              ("Controller._handle_post", "malcolm/core/controller.py"),
              ("Controller.update_method_logs", "malcolm/core/controller.py"),
              ("MapMeta.validate", "malcolm/core/models.py")],
        note="Complete case split on the real controllers; values are one "
        "representative per validation outcome (metas: C05)."),
    dict(
        id="C04", title="A subscriber's copy is always the block's contents",
        statement="For every subscription (any path of the block, full updates "
        "or deltas) made before, between or after changes, applying the "
        "received messages in order gives exactly what a Get of that path "
        "would return at that moment (nothing, while the path does not "
        "exist). Each change, or group of squashed changes, of "
        "what is subscribed to is sent exactly once and changes of other "
        "fields are not sent. An Unsubscribe is answered by one Return and "
        "stops just that subscription; an unknown or second one is "
        "answered by an Error.",
        over=["inputs", "histories"],
        quant="all paths of a block with scalar, table, method and meta "
        "children, all pairs of changes at any level, all interleavings of "
        "subscribe, change and unsubscribe",
        why="tests look at a few literal deltas; the loss of an update needs "
        "a particular pair of change level and subscription path",
        files=["malcolm/core/notifier.py", "malcolm/core/controller.py",
               "malcolm/core/models.py"],
        mech=[("NotifierNode.notify_changes", "malcolm/core/notifier.py"),
              ("Notifier.squashed_changes", "malcolm/core/notifier.py"),
              ("NotifierNode.handle_subscribe", "malcolm/core/notifier.py")],
        level="exploration",
        note="The tree of subscriptions and the squashing of changes are "
        "proved node by node (any depth, data, subscribers); the models that "
        "feed it are bounded: every pair of changes from a complete menu, "
        "for every path and mode, on one block; random longer histories."),
    dict(
        id="C08", title="Scan steps are handed to the parts completely and in order",
        statement="For every generator, axes to move and breakpoints that "
        "configure() accepts, the runs given to the parts partition the "
        "scan: each run starts at the step where the last one ended, has at "
        "least one step and ends at the next run boundary, and "
        "breakpoints beyond the inner scan are refused. Pausing or seeking to step k "
        "makes the next run start exactly at k (limited to the scan) and end "
        "at the end of the run containing k. run() ends Finished exactly "
        "when all steps are done, else Armed, and completedSteps follows "
        "the slowest part and never goes back while running. At configure, "
        "run, pause, abort and reset all parts are told in the documented "
        "order of hooks, each with what the parts reported just before.",
        over=["inputs", "histories"],
        quant="all generator dimensions, axes subsets, breakpoint lists, "
        "current runs, seek targets, and sequences of run/pause/resume/seek",
        why="tests use a handful of fixed generators and pause points; the "
        "property is over all step counts and histories",
        files=[SCAN],
        mech=[("get_steps_per_run", SCAN), ("do_run", SCAN),
              ("do_pause", SCAN), ("get_breakpoint_index", SCAN),
              ("pause", SCAN), ("update_completed_steps", SCAN)],
        note="do_run, do_pause, get_breakpoint_index, pause and run proved for "
        "any number and length of runs (loop invariant, prefix sums); "
        "get_steps_per_run proved for up to 3 dimensions and 3 breakpoints "
        "(bounded), sizes unbounded; whole histories sampled; order of the "
        "hooks for every operation with two parts (bounded)."),
    dict(
        id="C11", title="PandA sequencer tables keep the exact pulse train",
        statement="Turning the gate/trigger sequence of a scan into PandA "
        "sequencer tables preserves it: the repeats of the rows written for "
        "an entry add up to its count with 1..4096 repeats each, no table "
        "exceeds 4096 rows, total duration in ticks is kept apart from the "
        "fixed table-switch correction, and splitting rows or continuing in "
        "the other buffer loses, duplicates and reorders nothing. Over a "
        "whole scan every step gets exactly one live pulse of its duration, "
        "each row of steps starts on its trigger (the motion program's signal, "
        "or the position at which its first step starts, in its direction) "
        "and never during the turnaround before it, and nothing is live "
        "between rows.",
        over=["inputs", "histories"],
        quant="all row lists, counts, durations, split points and minimum "
        "durations; all sequences of tables in the double buffer",
        why="tests compare a few literal tables; 4096 boundaries and "
        "arbitrary split points are not sampled",
        files=["malcolm/modules/ADPandABlocks/doublebuffer.py",
               "malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py"],
        mech=[("SequencerRows.add_seq_entry",
               "malcolm/modules/ADPandABlocks/doublebuffer.py"),
              ("SequencerRows.split",
               "malcolm/modules/ADPandABlocks/doublebuffer.py"),
              ("DoubleBuffer._get_tables",
               "malcolm/modules/ADPandABlocks/doublebuffer.py"),
              ("get_rows",
               "malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py")],
        note="All obligations of SequencerRows and of the table loop "
        "discharged for unbounded row lists; the buffer switching on "
        "callbacks and the tables of whole scans are exercised concretely "
        "(bounded)."),
    dict(
        id="C13", title="Exposure and readout always fit in the frame",
        statement="For every duration, exposure, readout time, clock "
        "accuracy and minimum exposure, the exposure worked out for a "
        "detector is never below its minimum and, if the duration allows "
        "that minimum at all, exposure + readout + clock error fit in the "
        "duration: as long as possible when none was given, unchanged when "
        "possible, cut or raised to the limits otherwise. validate() tweaks "
        "a zero duration to the shortest that holds all frames of a step, a "
        "zero exposure to the longest that fits, accepts its own tweaks, "
        "and refuses an exposure outside the limits, and PandA trigger "
        "pulses are as long as the exposure, evenly spread over the step.",
        over=["inputs"],
        quant="all real durations, exposures, readout times, accuracies up "
        "to 1%, minimum exposures and frames per step",
        why="tests check a few numbers; a boundary or sign slip shows only "
        "for particular combinations",
        files=["malcolm/modules/scanning/infos.py",
               "malcolm/modules/scanning/parts/exposuredeadtimepart.py",
               "malcolm/modules/ADAndor/parts/andordriverpart.py",
               "malcolm/modules/ADPandABlocks/parts/pandapulsetriggerpart.py"],
        mech=[("ExposureDeadtimeInfo.calculate_exposure",
               "malcolm/modules/scanning/infos.py"),
              ("ExposureDeadtimePart.on_validate",
               "malcolm/modules/scanning/parts/exposuredeadtimepart.py")],
        note="All obligations discharged over the reals; floats as reals, "
        "with the unmodified code sampled to 1e-9."),
    dict(
        id="C12", title="PandA tables keep every bit of every field",
        statement="For every layout of non-overlapping bit fields of a PandA "
        "table, the words sent to the box hold each field's value in its own "
        "bits and zeros elsewhere, row after row, with just as many words "
        "for each row as the fields need, and reading words back gives each "
        "column the value (sign included for signed fields, label for "
        "enumerations) in its bits. So writing a table and reading it back "
        "gives the same table, and words read and written again keep all "
        "bits of known fields.",
        over=["inputs", "configurations"],
        quant="all field positions and widths within a word, signed or not, "
        "with neighbours in the same and in another word; all values",
        why="tests use one or two literal tables of the real box, whose "
        "fields mostly start at bit 0 or are as wide as a machine type",
        files=["malcolm/modules/pandablocks/parts/pandatablepart.py"],
        mech=[("PandATablePart.list_from_table",
               "malcolm/modules/pandablocks/parts/pandatablepart.py"),
              ("PandATablePart.table_from_list",
               "malcolm/modules/pandablocks/parts/pandatablepart.py")],
        note="Complete split over positions and widths, bit-vector "
        "obligations over all values, numpy by an element-wise contract."),
    dict(
        id="C10", title="PMAC trajectories pass through every step at the right time",
        statement="For every scan of line, snaked, spiral, lissajous, array "
        "and static generators, the profile sent to a PMAC visits the lower "
        "bound, centre and upper bound of every step in order, each step "
        "lasting its duration, with the trigger program asked for at each "
        "(sparse profiles may leave out points on a straight line "
        "at constant speed only), and turnarounds and the start and end join "
        "the neighbouring positions and velocities within each motor's "
        "velocity, acceleration and soft limits, and are not shorter than "
        "the gap needed. However it is cut into batches, "
        "nothing is lost or repeated, no interval is longer than the "
        "controller allows, and all times sent add up to the time wanted. "
        "Completed steps are reported exactly when their last point is done.",
        over=["inputs", "histories"],
        quant="all generators, durations, motor limits, triggers, gaps and "
        "batch boundaries",
        why="tests compare some literal profiles; particular shapes of rows, "
        "durations and batch boundaries lose or distort points",
        files=[PMAC, "malcolm/modules/pmac/util.py",
               "malcolm/modules/pmac/infos.py"],
        mech=[("PmacChildPart.add_profile_point", PMAC),
              ("PmacChildPart.calculate_generator_profile", PMAC),
              ("PmacChildPart.write_profile_points", PMAC),
              ("cs_axis_mapping", "malcolm/modules/pmac/util.py"),
              ("point_velocities", "malcolm/modules/pmac/util.py")],
        note="Single step, sparse step, velocity, limit, mapping and tick "
        "rounding contracts proved over the reals (ticks for any number of "
        "points by loop invariant); one move bounded to 13 s; whole "
        "trajectories sampled on the real code (bounded). VelocityProfile "
        "library trusted."),
    dict(
        id="C22", title="validate finds parameters that suit every part",
        statement="validate() and configure() ask every part about the "
        "parameters until none tweaks them, and what they return or use is "
        "accepted by all parts, no shorter than the longest duration asked "
        "for, and otherwise as given; parameters that never "
        "settle are refused with nothing configured. Every part is "
        "configured with those, and "
        "validating them again changes nothing. They take exactly the "
        "parameters that the parts ask for, with their defaults. For a PMAC the duration is "
        "kept or rounded up to whole servo cycles for each half of a step, "
        "or guessed as the shortest its motors can do if none was given.",
        over=["inputs", "configurations"],
        quant="all sets of parts with their own constraints, durations, "
        "exposures, servo frequencies and motor velocities",
        why="tests validate one or two parts with literal numbers; the "
        "result must be a fixed point for any combination",
        files=[SCAN, "malcolm/modules/scanning/util.py", PMAC],
        mech=[("RunnableController.validate", SCAN),
              ("resolve_generator_tweaks", "malcolm/modules/scanning/util.py"),
              ("update_configure_model", SCAN),
              ("PmacChildPart.get_aligned_duration_with_servo_frequency",
               PMAC),
              ("PmacChildPart.calculate_generator_duration", PMAC)],
        note="Servo alignment and duration guess proved over the reals (six "
        "servo frequencies); resolving tweaks bounded to 5 parts; "
        "validate with real parts sampled, the parameters asked for by up to "
        "three parts (bounded)."),
    dict(
        id="C09", title="Every step of a scan is its own frame of every detector",
        statement="Over every sequence of configure, runs, pauses and seeks "
        "the detector driver asks for exactly the images of the run (or of "
        "the rest of the scan), never uses a frame number twice, and each "
        "run waits for its last frame; the position labeller gives each "
        "frame the indexes of its own step, and driver and file writers "
        "report each frame as the step it belongs to. A detector "
        "with n frames per step gets n times the steps, breakpoints and seek "
        "position, all frames of a step at its position and 1/n of its time, "
        "and reports a step when all n are done. HDF dimensions are those of "
        "the generator, fastest first. The virtual dataset of a detector that "
        "is written by several file writers shows each step's own frame, and "
        "every dataset reported is in the file reported, with its own source; "
        "an HDF writer that gets no more frames fails in the end.",
        over=["inputs", "histories"],
        quant="all step counts, run lengths, seek targets, frames per step "
        "and sequences of runs and seeks, triggered in hardware or software, "
        "with and without breakpoints",
        why="tests walk one or two runs with literal numbers; lost or "
        "mislabelled frames need a particular sequence of runs and seeks",
        files=[DET, "malcolm/modules/ADCore/parts/detectordriverpart.py",
               "malcolm/modules/ADCore/parts/positionlabellerpart.py",
               "malcolm/modules/ADCore/parts/hdfwriterpart.py",
               "malcolm/modules/ADOdin/parts/odinwriterpart.py",
               "malcolm/modules/xspress3/parts/xspresswriterpart.py"],
        mech=[("DetectorDriverPart.setup_detector",
               "malcolm/modules/ADCore/parts/detectordriverpart.py"),
              ("PositionLabellerPart.setup_plugin",
               "malcolm/modules/ADCore/parts/positionlabellerpart.py"),
              ("HDFWriterPart.on_seek",
               "malcolm/modules/ADCore/parts/hdfwriterpart.py"),
              ("files_shape",
               "malcolm/modules/ADOdin/parts/odinwriterpart.py"),
              ("files_shape",
               "malcolm/modules/xspress3/parts/xspresswriterpart.py"),
              ("DetectorChildPart._configure_args", DET)],
        note="Driver and HDF writer proved by an inductive invariant over any "
        "history, dimensions proved; the sharing of any number of frames among "
        "writers bounded to 4 writers and blocks of 3; labeller, virtual "
        "datasets, HDF layouts and frames per step sampled."),
    dict(
        id="C07", title="Waiting on futures ends exactly when and how it should",
        statement="A wait on futures of a Context returns only once every "
        "future waited on has succeeded, and otherwise raises the error of "
        "one of them, the error of a subscription callback or of a failed or "
        "bad when-condition, AbortedError when stopped or TimeoutError when "
        "a timeout passes; it never hangs once all its futures have been "
        "answered, whatever else arrives and whatever waits the callbacks "
        "make. Each future gets its own response and no other, each "
        "subscription's callback gets every update once and in order until "
        "it is unsubscribed and none after, and each subscription that ends "
        "(by hand, all together, or by its condition becoming true or "
        "failing) is unsubscribed once. Stops received before "
        "ignore_stops_before_now() are ignored and later ones are not.",
        over=["inputs", "histories", "schedules", "fault_sequences"],
        quant="all orders of responses, updates, stops and timeouts, with "
        "callbacks that wait, put, sleep, unsubscribe or raise",
        why="tests use one or two futures answered in order; the hangs and "
        "lost errors need answers that arrive during a nested wait",
        files=["malcolm/core/context.py", "malcolm/core/future.py"],
        mech=[("Context.wait_all_futures", "malcolm/core/context.py"),
              ("Context._service_futures", "malcolm/core/context.py"),
              ("When.__call__", "malcolm/core/context.py"),
              ("Future.result", "malcolm/core/future.py")],
        level="exploration",
        note="Timeouts proved for all times (integer ticks). All orders of "
        "three answers around a callback that waits: complete, bounded. "
        "Longer histories: seeded sample against a reference."),
    dict(
        id="C17", title="Hooks run every part that asked, and wait for all",
        statement="Running a hook on the parts of a controller calls each "
        "part that registered for it exactly once with exactly the arguments "
        "it asked for and no other part, starts all of them before waiting "
        "for any, and returns only when all have ended, with each part's own "
        "results under its name in the order of the parts. If parts fail, "
        "the error of the first to fail is raised, only after all the other "
        "parts have been told to stop (unless they were being aborted) and "
        "have ended. Infos are handed on by their type: filters give all the "
        "infos of a type, by part and in order, and refuse to pick one where "
        "there are none or many.",
        over=["inputs", "schedules", "fault_sequences"],
        quant="all combinations of what parts ask for and do, ending in any "
        "order",
        why="tests run hooks that succeed in order, or a single failure",
        files=["malcolm/core/hook.py", "malcolm/core/controller.py",
               "malcolm/core/info.py", "malcolm/modules/builtin/hooks.py"],
        mech=[("start_hooks", "malcolm/core/hook.py"),
              ("wait_hooks", "malcolm/core/hook.py"),
              ("Hook.__call__", "malcolm/core/hook.py"),
              ("Controller.run_hooks", "malcolm/core/controller.py")],
        note="Complete case split for two parts, bounded for four. Spawned "
        "functions run one after the other in any order."),
    dict(
        id="C18", title="A process hosts, starts, publishes and stops blocks",
        statement="Every controller added to a process before or after it is "
        "started can be found by its mri, is started exactly once and told to "
        "stop exactly once, whatever the other controllers do; a second "
        "controller of the same mri is refused. After each addition every "
        "controller is told the mris to publish: all that are hosted except "
        "those that said they are not to be published, once each, however "
        "the blocks are nested. Stopping waits for everything that was "
        "spawned and leaves nothing hosted.",
        over=["inputs", "histories", "fault_sequences"],
        quant="controllers added early or late, alone or together, failing "
        "in any of their hooks, published or not, in nested structures",
        why="tests start one process of one or two well behaved controllers",
        files=["malcolm/core/process.py", "malcolm/core/hook.py"],
        mech=[("Process.start", "malcolm/core/process.py"),
              ("Process.add_controllers", "malcolm/core/process.py"),
              ("Process._publish_controllers", "malcolm/core/process.py"),
              ("Process.stop", "malcolm/core/process.py")],
        note="Complete case split for two controllers; nested structures "
        "bounded to 14 shapes of 4. cothread replaced by stand-ins."),
    dict(
        id="C23", title="Each PandA request gets the response to it, whole",
        statement="However the bytes of a PandA's responses are cut into "
        "packets and however many requests are waiting, each request gets "
        "exactly the response to it: its line, its list of lines (possibly "
        "empty), or a ValueError if it was refused; a request that cannot be "
        "sent, or a value that is not one line, is refused without "
        "disturbing any other. Fields and tables are written exactly as "
        "asked, and the blocks, fields, types, labels, descriptions, table "
        "fields, bits and changes reported are those the PandA reports.",
        over=["inputs", "schedules", "histories"],
        quant="all cuttings of the byte stream, any number of requests in "
        "flight, all response forms, multi-byte characters",
        why="tests answer each request by one packet of ASCII",
        files=["malcolm/modules/pandablocks/pandablocksclient.py"],
        mech=[(x, "malcolm/modules/pandablocks/pandablocksclient.py")
              for x in ("PandABlocksClient._get_lines",
                        "PandABlocksClient._recv_loop",
                        "PandABlocksClient._send_loop",
                        "PandABlocksClient.set_fields")],
        level="exploration",
        note="Pairing of any next line with its request, after any others, "
        "is proved over symbolic strings. Bounded: one stream cut in every "
        "place; seeded samples of requests, writes and descriptions."),
    dict(
        id="C05", title="Values that metas accept are of the declared type",
        statement="Every value a meta accepts is of its declared type, choice "
        "or column lengths, is the value that was given (numbers in the "
        "type's precision), and is unchanged by validating it again and by "
        "sending it to a client and back; a value that cannot be so is "
        "refused and leaves the attribute, its alarm and its time as they "
        "were. Metas, tables, attributes, methods, alarms and times come "
        "back from their serialized form equal, and tables are equal exactly "
        "when their columns are.",
        over=["inputs"],
        quant="all metas and number types, values of every Python, numpy and "
        "malcolm kind around every limit",
        why="tests validate a few values per meta",
        files=["malcolm/core/models.py", "malcolm/core/table.py",
               "malcolm/core/alarm.py", "malcolm/core/timestamp.py"],
        mech=[(x, "malcolm/core/models.py") for x in (
            "NumberMeta.validate", "ChoiceMeta.validate", "to_np_array",
            "TableMeta.validate", "MapMeta.validate",
            "AttributeModel.set_value")],
        level="exploration",
        note="Bounded: menus of values for each meta, and seeded random "
        "numbers. numpy's casts and json are outside the prover."),
    dict(
        id="C06", title="A proxy shows its remote block and forwards requests",
        statement="After any history of changes to a remote block, its proxy "
        "shows the same fields with the same values, alarms, times and metas "
        "(health apart while disconnected). Puts and calls on the proxy reach "
        "the block once with the same arguments and answer with its result or "
        "error, also when the connection cannot send or ends. A client is "
        "ready only while it is connected, and after it lost its server and "
        "was reset its proxies show their blocks again. While connected it "
        "lists the blocks that the server publishes. The server answers every "
        "message of a client once, with its id, which can be used again "
        "when its subscription has ended.",
        over=["inputs", "histories", "fault_sequences"],
        quant="all pairs of changes to every part of a block, longer random "
        "histories, requests of every kind, connections that fail",
        why="tests change one value of one attribute",
        files=["malcolm/modules/web/controllers/websocketclientcomms.py",
               "malcolm/modules/web/controllers/httpservercomms.py",
               "malcolm/modules/builtin/controllers/proxycontroller.py",
               "malcolm/core/models.py"],
        mech=[("WebsocketClientComms.on_message",
               "malcolm/modules/web/controllers/websocketclientcomms.py"),
              ("MalcWebSocketHandler.on_message",
               "malcolm/modules/web/controllers/httpservercomms.py"),
              ("Model.apply_change", "malcolm/core/models.py"),
              ("ProxyController", "malcolm/modules/builtin/controllers/"
               "proxycontroller.py")],
        level="exploration",
        note="Matching of answers to requests by id is proved. The rest is "
        "bounded: all pairs of 17 changes, random histories; the "
        "websocket is a stand-in passing the real messages."),
    dict(
        id="C15", title="What a saved design holds is what loading restores",
        statement="Saving a block under a name and loading that name later, "
        "from any other state of the block or in a new process, restores the "
        "layout, exports, the block's own and its children's configuration "
        "exactly (fields in the order of their config tags), and the design "
        "is offered under its name. The modified flag "
        "is set, with a message naming each difference, exactly while a "
        "shown child's configuration, the shown blocks or the exports differ "
        "from what was last saved or loaded. A save that fails leaves the "
        "previous design whole, and no save touches files of other blocks.",
        over=["inputs", "histories", "crash_points"],
        quant="attributes of all kinds and values, designs and changes in any "
        "order, nested managers, fields that come and go, failures while "
        "saving",
        why="tests save and load one string attribute of one child",
        files=[MANAGER, "malcolm/modules/builtin/parts/childpart.py"],
        mech=[("do_save", MANAGER), ("do_load", MANAGER),
              ("update_modified", MANAGER), ("_mark_clean", MANAGER)] + [
              (x, "malcolm/modules/builtin/parts/childpart.py") for x in
              ("on_load", "on_save", "send_modified_info_if_not_equal",
               "update_part_exportable")],
        level="exploration",
        note="Bounded: two children with attributes of every kind, menus of "
        "values and changes, seeded histories; files in a scratch folder."),
    dict(
        id="C16", title="Exports mirror children; hidden blocks are unwired",
        statement="A manager shows its own fields and, of the children that "
        "are shown, exactly the fields it is told to export, each under its "
        "export name, always equal to the child's in value, alarm, time and "
        "description, whatever happens to either block; an export never "
        "replaces another field. A put or call on an exported field reaches "
        "the child with the same arguments and answers with its result or "
        "error. A block that becomes hidden is disconnected, as is what was "
        "wired to it, and nothing else; with no layout given exactly the "
        "blocks wired to others are shown.",
        over=["inputs", "histories"],
        quant="export tables and names of a menu, all pairs of changes and "
        "random histories of both blocks, all wirings of three blocks",
        why="tests export one attribute and change its value once",
        files=[MANAGER, "malcolm/modules/builtin/parts/childpart.py"],
        mech=[("_make_export_field", MANAGER),
              ("_get_current_part_fields", MANAGER),
              ("update_block_endpoints", MANAGER), ("set_layout", MANAGER)] + [
              (x, "malcolm/modules/builtin/parts/childpart.py") for x in
              ("on_layout", "sever_sink_ports", "calculate_part_visibility")],
        level="exploration",
        note="Bounded: two or three children, all pairs of 17 changes, seeded "
        "histories. Label, tags and writeable of exports not compared."),
    dict(
        id="C19", title="Attributes and methods of PVs show and do what PVs do",
        statement="From the init or reset of its block until it is disabled, "
        "an attribute of an EPICS PV shows the value, severity and time that "
        "its readback PV last reported, keeping the value but disconnected "
        "while the PV is. Each put is written exactly once to the demand PV, "
        "as that PV's type, waiting with the timeout asked for, and then shows "
        "the readback; an attribute with a readback PV only cannot be put. A "
        "table of waveform PVs shows each in its own column whenever they have "
        "the same length, and is as bad as the worst of them. A method of PVs puts "
        "its value once and returns exactly if the status PV becomes good, "
        "else fails naming status and message.",
        over=["inputs", "histories", "fault_sequences"],
        quant="all values, severities and times, all orders of updates, "
        "disconnections, puts, resets and disables, PVs that may be missing "
        "or fail",
        why="tests connect one PV and send it one update",
        files=["malcolm/modules/ca/util.py",
               "malcolm/modules/ca/parts/caactionpart.py",
               "malcolm/modules/ca/parts/cawaveformtablepart.py"],
        mech=[("CABase._update_value", "malcolm/modules/ca/util.py"),
              ("CABase._monitor_callback", "malcolm/modules/ca/util.py"),
              ("CAAttribute.caput", "malcolm/modules/ca/util.py"),
              ("CAAttribute.reconnect", "malcolm/modules/ca/util.py"),
              ("WaveformTableAttribute.reconnect",
               "malcolm/modules/ca/util.py"),
              ("CAActionPart.caput",
               "malcolm/modules/ca/parts/caactionpart.py")],
        note="Updates, puts and actions proved with opaque values for every "
        "severity, time and outcome; life histories and waveform tables "
        "bounded. The CA client library is a stand-in."),
    dict(
        id="C20", title="pvAccess clients see the block as it is and act on it",
        statement="A pvAccess client of a block, or of one of its fields, is "
        "sent exactly what the block holds, now and after every change of "
        "values, alarms, metas, tables (with the labels of their columns), "
        "choices and fields, alone, squashed or arriving together; a change of "
        "structure disconnects it and it then sees the new structure; it is "
        "told only of what changed. A block "
        "mirrored by a PVA client controller equals the remote one. A put to "
        "the value of one field, or a call of a method (by NTURI, by method "
        "name or by the method's own channel), runs the function once "
        "with what was sent and is answered once with its result or error; "
        "anything else is refused and changes nothing. A channel "
        "exists exactly while its block is published, clients of one channel "
        "share it, and clients of a withdrawn block are disconnected.",
        over=["inputs", "histories"],
        quant="all fields and kinds of channel, all pairs of changes, all "
        "kinds of requests and outcomes, any order of publishing",
        why="tests make single changes of two blocks with one client",
        files=["malcolm/modules/pva/controllers/pvaservercomms.py",
               "malcolm/modules/pva/controllers/pvaclientcomms.py",
               "malcolm/modules/pva/controllers/pvaconvert.py"],
        mech=[("BlockHandler." + x,
               "malcolm/modules/pva/controllers/pvaservercomms.py")
              for x in ("handle", "_update_value", "put", "rpc")] + [
            ("PvaServerComms.publish",
             "malcolm/modules/pva/controllers/pvaservercomms.py"),
            ("PvaClientComms." + "sync_proxy",
             "malcolm/modules/pva/controllers/pvaclientcomms.py"),
            ("convert_to_type_tuple_value",
             "malcolm/modules/pva/controllers/pvaconvert.py"),
            ("update_path",
             "malcolm/modules/pva/controllers/pvaconvert.py")],
        level="exploration",
        note="Calls by NTURI proved for any strings. Bounded: one block with "
        "every kind of field, all pairs of 21 changes, all kinds of requests; "
        "real p4p values, p4p's server and client replaced by stand-ins."),
]
