"""The properties, one entry each; tools/mk.py writes properties.jsonl and MANIFEST.json."""

PROPS = []


def P(pid, title, statement, over, text, why, files, mechanism, technique, note,
      state=(), observe=()):
    anchors = {
        "files": ["ros_bt_py/ros_bt_py/" + f if not f.startswith("ros_bt_py") else f for f in files],
        "mechanism": [{"name": n, "where": w} for n, w in mechanism],
    }
    if state:
        anchors["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        anchors["observe_at"] = list(observe)
    PROPS.append(
        {
            "line": {
                "id": pid,
                "title": title,
                "statement": statement,
                "quantifier": {"over": over, "text": text},
                "why_tests_cant": why,
                "anchors": anchors,
            },
            "technique": technique,
            "note": note,
        }
    )


MODEL_NOTE = (
    "Real nodes and an independent reference model run the same generated history; every node's state, "
    "every call a leaf receives and the order of leaf ticks are compared after every step. Sampled, not exhaustive."
)

P(
    "C08",
    "Sequences and fallbacks run, stop and remember their children as documented",
    "A sequence ticks its children in order until one fails or is running, succeeds when all have succeeded "
    "(also when it has none), and interrupts every child after the one that failed; a fallback is the mirror image "
    "with success and failure exchanged (failing when it has no children). After a final result all children are reset "
    "before they are ticked again, and a running child is not accompanied by any interruption of later ones. The variants with "
    "memory resume at the child that was running, and start over after a final result or a reset (the sequence also after an interruption).",
    ["histories", "programs"],
    "every tree built from these nodes and every history of setup, tick, untick, reset and shutdown with every pattern of child results and child errors",
    "The repository's tests sample a few dozen fixed histories and none of them is among the tests that run here; "
    "the guarantees quantify over all interleavings of results, interruptions, resets and errors.",
    ["nodes/sequence.py", "nodes/fallback.py", "node.py"],
    [("Sequence and MemorySequence tick loop", "ros_bt_py/ros_bt_py/nodes/sequence.py"),
     ("Fallback and MemoryFallback tick loop", "ros_bt_py/ros_bt_py/nodes/fallback.py")],
    "model-based property testing: generated trees and operation histories against a reference model",
    MODEL_NOTE,
    state=[("index of the running child", "where a node with memory resumes")],
    observe=["state of every node after every operation", "calls received by scripted leaves"],
)

P(
    "C09",
    "Parallel nodes count results, keep finished children and stop the rest",
    "A parallel node ticks every child that has no result yet, succeeds as soon as the required number of children have "
    "succeeded and otherwise fails as soon as more children have failed than it can tolerate, interrupting exactly the children "
    "that have no result at that point. A child that has a result is not ticked again until the parallel node itself has finished and "
    "resets all of its children, and setting up a node that requires more successes than it has children is refused.",
    ["histories", "programs"],
    "every number of children, threshold and tolerance, and every history of results, interruptions, resets and errors",
    "Thresholds, results and interruptions combine into far more histories than the fixed ones in the tests, none of which run here.",
    ["nodes/parallel.py", "node.py"],
    [("Parallel and ParallelFailureTolerance tick loop", "ros_bt_py/ros_bt_py/nodes/parallel.py")],
    "model-based property testing: generated trees and operation histories against a reference model",
    MODEL_NOTE,
)

P(
    "C10",
    "Switch nodes run exactly the selected child and interrupt all others",
    "A switch node ticks only the child that its input selects (by child name, or by the name of the message constant with the input's value; "
    "only the part of a child's name after the last dot counts for the latter), interrupts every other child in the same tick and returns the selected child's result. "
    "It fails without ticking anything when the input selects no existing child, and resets all children before ticking again after a final result.",
    ["histories", "inputs"],
    "every set of children and every sequence of selections, results, interruptions, resets and errors",
    "The outcome depends on the whole history of selections and results; the tests that run here contain no switch node at all.",
    ["nodes/fallback.py", "ros_nodes/enum_switch.py", "ros_helpers.py"],
    [("NameSwitch", "ros_bt_py/ros_bt_py/nodes/fallback.py"),
     ("EnumSwitch", "ros_bt_py/ros_bt_py/ros_nodes/enum_switch.py")],
    "model-based property testing: generated trees, selections and operation histories against a reference model",
    MODEL_NOTE,
)

P(
    "C11",
    "Decorators translate, repeat, retry and gate their child as documented",
    "Every decorator reports its child's result after exactly its documented translation (inverting, ignoring a result, retrying or repeating up to the configured count, repeating forever or until a result), "
    "resets the child exactly when it starts it over, and reports its documented result when it has no child. Counts start over after setup and reset, except that the repeat without auto-reset restarts only on its reset input; "
    "the watch decorator interrupts its child exactly when its watched input was updated, and the optional decorator never touches a child that cannot execute.",
    ["histories", "programs"],
    "every decorator, count and child, and every history of child results, inputs, interruptions, resets and errors",
    "Counts interact with interruptions, resets and errors over arbitrarily long histories; no decorator test runs here.",
    ["nodes/decorators.py", "node.py"],
    [("decorator classes", "ros_bt_py/ros_bt_py/nodes/decorators.py")],
    "model-based property testing: generated trees and operation histories against a reference model",
    MODEL_NOTE,
)

P(
    "C01",
    "Every value a data type accepts survives being written and read back",
    "Whatever value a node data type accepts (booleans, integers, floats, strings, paths, bytes, lists, dictionaries, ROS messages including array fields, "
    "ROS interface types and chosen types), its serialized text, read into an equal type or into the type rebuilt from its own description, "
    "yields an equal value of the same Python type and serializes to the same text again. Trees are stored, shown and edited through exactly these texts.",
    ["inputs"],
    "every data type description, nested to several levels, and every value within its constraints",
    "The value space is infinite (nesting, unicode, extreme numbers, every message field type); no test of data types runs here.",
    ["data_types.py"],
    [("serialize_value / deserialize_value of every type", "ros_bt_py/ros_bt_py/data_types.py"),
     ("get_iotype_for_msg", "ros_bt_py/ros_bt_py/data_types.py")],
    "property-based testing: round trip of generated values through generated types",
    "Round trip over generated type/value pairs, biased to extremes; message classes are generated stand-ins without native type support.",
)

P(
    "C02",
    "Type descriptions survive being sent and read back",
    "The NodeIO description that a data type produces, when read back, yields a type of the same kind at every nesting level, with the same static and dynamic attributes, "
    "the same selectable types, the same description again, mutual compatibility with the original, and exactly the same set of accepted values "
    "(limits, lengths, strict lengths, allowed strings and interface types included).",
    ["inputs"],
    "every type description up to several nesting levels, with every combination of constraints, and every value tried on it",
    "Constraints, nesting and attributes combine without bound and the two directions are written separately; no test of them runs here.",
    ["data_types.py"],
    [("serialize_type / get_iotype_for_msg", "ros_bt_py/ros_bt_py/data_types.py")],
    "property-based testing: round trip of generated type descriptions, differential acceptance of generated values",
    "Acceptance after the round trip is compared with an independent reference of the constraints, on generated values inside and outside them.",
)

P(
    "C03",
    "A data value never leaves its constraints and nobody else can change it",
    "A data type takes a value exactly if the value is of its kind and within its limits (a refused value changes nothing; a static type takes one value until its update is acknowledged), "
    "flags an update exactly if the value changed, keeps the flag until it is cleared, and forgets its value on reset unless it is static. The stored value is unaffected by later changes to the object it was "
    "set from or to an object it was read as, and can be read as exactly those Python types it is an instance of.",
    ["inputs", "histories"],
    "every data type and every history of legal and illegal assignments, flag changes, value resets and reads",
    "Whether a flag or value is right depends on the whole assignment history and on aliasing; no test of data types runs here.",
    ["data_types.py"],
    [("set_value / get_value / reset_value / flags", "ros_bt_py/ros_bt_py/data_types.py")],
    "model-based property testing: generated assignment histories against a reference of constraints and flags",
    "Every step of a generated history is compared with a reference; aliasing is probed by mutating what went in and what came out.",
    state=[("_updated flag", "value changed since the flag was last cleared")],
)

P(
    "C04",
    "Types are compatible exactly if every value of one fits the other",
    "is_compatible holds exactly if the other type is of the same kind and at least as narrow: its numeric range, lengths (exact where strict), allowed strings, selectable types, message type, interface and element types "
    "lie within this one's, and it can be given statically or dynamically wherever this one can. Every type is compatible with itself, a value accepted by a compatible type is accepted by the wider one, "
    "types that compare as equal are compatible both ways, and the run-time variants compare by the way each value is actually given.",
    ["inputs"],
    "every pair of type descriptions, nested ones included, and every value",
    "Compatibility is a relation over pairs of unboundedly many descriptions; it decides which wirings are allowed at all.",
    ["data_types.py"],
    [("is_compatible / get_runtime_type", "ros_bt_py/ros_bt_py/data_types.py")],
    "property-based testing: generated near-miss pairs of types against a reference relation, metamorphic value acceptance",
    "Generated pairs are biased to differ in one constraint; compared with an independent reference relation.",
)

EDIT_NOTE = "Every response, the published structure, the structure message and the live nodes are compared with the model after every operation. Sampled, not exhaustive."
EDIT_FILES = ["tree_edit_manager.py", "tree_exec_manager.py", "node.py"]
EDIT_TECH = "model-based stateful testing: generated edit sequences against a reference model of the tree"

P(
    "C15",
    "Wirings always connect existing, fitting data, through every edit",
    "Wiring succeeds exactly if each pair names an output of an existing node and a non-static input of an existing node that its type fits (nothing is wired if one does not, unless failures are to be ignored, "
    "then exactly the others are); unwiring removes exactly the named wirings under the same rule. Removing or replacing a node removes its wirings, and changing a node's class, options or types keeps exactly those of its wirings that are "
    "still valid; every other edit, and reloading, keeps them all.",
    ["histories"],
    "every sequence of edits on every tree, with valid, invalid and partly valid requests",
    "Stale or badly typed wirings appear only after particular sequences of wiring, type changes and structural edits.",
    EDIT_FILES + ["data_types.py"],
    [("wire_data, unwire_data, validate_wiring", "ros_bt_py/ros_bt_py/tree_edit_manager.py"),
     ("re-wiring in morph_node, set_options, remove_node", "ros_bt_py/ros_bt_py/tree_edit_manager.py")],
    EDIT_TECH,
    EDIT_NOTE,
    state=[("data_wirings", "the wirings of the tree")],
    observe=["published structure", "service responses", "live nodes"],
)

P(
    "C16",
    "Every accepted edit does exactly what it says and keeps the tree a tree",
    "Adding (at an index, with existing parentless nodes as children), removing (with or without descendants; otherwise they become parentless), morphing, configuring, moving, replacing, renaming, clearing, reloading and loading a "
    "saved structure change exactly what the request names: positions follow Python indexing, a morphed or reconfigured node keeps its id, place and children, a node whose inputs follow from an option is, after setting options, what it would be if made with these options right away (with the inputs it still has as they were), a replacement takes over the place and appends the children of the old node. "
    "Valid requests are accepted. Afterwards every node has one parent at most, parents and children agree, no node exceeds its number of children or is below itself, ids are unique, and the structure that is "
    "published, the structure message and the live nodes are the same.",
    ["histories"],
    "every sequence of edits from every reachable tree",
    "The tree's shape is spread over live links, an adjacency list and messages that every edit must update consistently; defects need several edits in a row.",
    EDIT_FILES,
    [("edit services", "ros_bt_py/ros_bt_py/tree_edit_manager.py"),
     ("load_tree, clear, reload_tree", "ros_bt_py/ros_bt_py/tree_exec_manager.py"),
     ("add_child / remove_child", "ros_bt_py/ros_bt_py/node.py")],
    EDIT_TECH,
    EDIT_NOTE,
    state=[("nodes", "live nodes by id"), ("_children", "adjacency list")],
    observe=["published structure", "service responses", "live nodes"],
)

P(
    "C17",
    "A refused edit changes nothing",
    "Every edit request that cannot be carried out (unknown or malformed ids, unavailable classes or modules, unknown or badly typed inputs, a parent without room, too many children for the new class or replacement, "
    "children that already have a parent, a move or replacement that would put a node below itself, wirings that do not fit or do not exist) is answered with success=False and a message, raises nothing, "
    "and leaves nodes, order, options, names and wirings exactly as they were, so that later edits work as if it had never been sent.",
    ["histories", "inputs"],
    "every invalid request at every point of every edit sequence",
    "Most edits tear the tree apart and rebuild it; whether every failure path restores it shows only for particular requests in particular trees.",
    EDIT_FILES,
    [("failure paths of the edit services", "ros_bt_py/ros_bt_py/tree_edit_manager.py"),
     ("from_msg / instantiate_node_from_msg", "ros_bt_py/ros_bt_py/node.py")],
    EDIT_TECH,
    EDIT_NOTE,
    observe=["structure before and after a refusal", "service responses"],
)

P(
    "C35",
    "An extracted subtree is an exact part of the tree",
    "get_subtree reports exactly the nodes below and including the given one, rooted there, with exactly the wirings that have both ends inside, the inputs fed from outside as public inputs and the outputs used outside as public outputs. "
    "generate_subtree reports exactly the requested nodes and their parents with the wirings among them, or an error if they do not form one tree. Neither changes the tree.",
    ["histories", "inputs"],
    "every node and node set of every edited tree",
    "Which wirings cross the border depends on the tree and on its edit history; no running test extracts a subtree.",
    EDIT_FILES,
    [("get_subtree, generate_subtree", "ros_bt_py/ros_bt_py/tree_edit_manager.py"),
     ("get_subtree_msg", "ros_bt_py/ros_bt_py/node.py")],
    EDIT_TECH,
    EDIT_NOTE,
)

P(
    "C18",
    "A tree can only be edited while it is not executing",
    "Every service that changes a tree is refused, with a reason and without any effect on the tree, unless the tree is EDITABLE: "
    "not while it is ticking, not in the middle of a tick, not while a stop is pending, nor while it waits for a tick, is idle or is in error; "
    "an EDITABLE tree accepts edits. An edit that has begun on an editable tree is complete before ticking starts, and one that waits for "
    "another is refused if ticking has started meanwhile.",
    ["schedules", "histories"],
    "every schedule of execution commands, ticks and edits, including edits made from within a tick and edits in progress when execution starts",
    "Services are served by several threads and the tree ticks in one more, so what matters is the interleaving; tests call one service after the other.",
    ["tree_exec_manager.py", "tree_edit_manager.py"],
    [("gate in front of every edit service", "ros_bt_py/ros_bt_py/tree_exec_manager.py is_edit_service"),
     ("start of ticking", "ros_bt_py/ros_bt_py/tree_exec_manager.py _control_execution_tick_once, _control_execution_tick_multiple")],
    "stateful property testing with generated schedules: the tick thread is real and is parked and released by the case; races are forced while a node is constructed",
    "Schedules are controlled at the granularity of ticks, leaf ticks and node constructions. The ROS node is a stand-in. Sampled, not exhaustive.",
    state=[("tree state", "EDITABLE, TICKING, WAITING_FOR_TICK, STOP_REQUESTED, IDLE or ERROR"), ("edit lock", "serialises edits and the start of ticking")],
    observe=["response of every service", "structure of the tree before and after", "tree state while a node is being constructed"],
)

P(
    "C36",
    "Execution commands start, stop, reset and shut down a tree as documented",
    "Tick once makes exactly one tick and leaves the tree WAITING_FOR_TICK; tick periodically goes on until it is stopped; tick until result goes on "
    "until the root succeeds or fails and then interrupts the tree and leaves it IDLE. A stop lets the tick in progress finish, makes no further one, "
    "interrupts the tree and leaves it IDLE; reset resets the tree and is refused while it ticks; shutdown stops it, shuts every node down and makes the tree "
    "EDITABLE. A tree is set up before its first tick and after a shutdown, and at no other time. If a tick fails or raises, or the setup or an interruption fails, the tree goes "
    "to ERROR, from where only shutdown is accepted. A second start while the tree ticks is refused. Responses and published tree states agree with the actual state, "
    "ticks happen at the requested frequency, and the published frequency is what the last ticks allowed.",
    ["histories", "schedules"],
    "every tree and every sequence of execution commands with any number of ticks in between, a stop in the middle of a tick included, and every pattern of node results and node errors",
    "Each command meets a tree in one of six states with any history behind it, while another thread is ticking; the tests that run do not execute trees at all.",
    ["tree_exec_manager.py", "node.py"],
    [("tick loop", "ros_bt_py/ros_bt_py/tree_exec_manager.py tick"),
     ("commands", "ros_bt_py/ros_bt_py/tree_exec_manager.py control_execution")],
    "stateful property testing with generated schedules against a reference model of tree state and node behaviour",
    "The tick thread is real and is parked between ticks by a stand-in for the rate; time is a stand-in. Sampled, not exhaustive.",
    state=[("tree state", "EDITABLE, TICKING, WAITING_FOR_TICK, STOP_REQUESTED, IDLE or ERROR"), ("node states", "of every node after every command")],
    observe=["response of every command", "published tree states and frequencies", "calls received by scripted leaves"],
)

P(
    "C19",
    "A tree that is saved to a file and loaded again is the same tree",
    "Loading the file a tree was saved to gives a tree with the same nodes (ids, classes, modules, names, input types and values, output types), "
    "the same children in the same order, the same wirings, public inputs and outputs, name and tick frequency; the path is the one it was loaded from and is "
    "not part of what is saved. Doing this again changes nothing, whatever the texts in the tree contain.",
    ["inputs", "histories"],
    "every tree that can be built by edits, with every name, value and file name",
    "The format is text with its own quoting and typing rules; only the combination of arbitrary trees and arbitrary texts shows what gets lost.",
    ["package_manager.py", "tree_exec_manager.py", "node.py", "data_types.py"],
    [("saving", "ros_bt_py/ros_bt_py/package_manager.py save_tree_to_path"),
     ("loading", "ros_bt_py/ros_bt_py/tree_exec_manager.py load_tree, load_tree_from_file, parse_tree_yaml")],
    "property testing: round trip through a file for trees made by generated edit sequences",
    "message_to_yaml and set_message_fields of ROS are stand-ins here. Texts with unicode line separators are left out because PyYAML itself loses them.",
    observe=["structure of the loaded tree", "live nodes of the loaded tree"],
)

P(
    "C20",
    "Damaged, hostile or old trees are refused and never crash or hang the node",
    "Loading any file or message ends with a response. Files that are missing, not readable, not YAML, not one mapping, without nodes, of a version before 1.0.0 or "
    "without a valid version, or that do not describe a tree are refused with a reason, and the tree that was loaded before stays; so are messages with unknown node classes, "
    "modules, inputs or types, malformed ids, children or wirings that lead out of the tree, and nodes with several parents. Files of any version from 1.0.0 on and undamaged messages are loaded. "
    "Whatever was loaded is a forest or contains cycles that are reported, and can be edited, inspected, run and shut down without an exception or an endless loop. "
    "The migration program brings files of those versions to the current version without changing anything else, never overwrites another file, and leaves the other files alone.",
    ["inputs", "fault_sequences"],
    "every file content, path and tree message",
    "An exception in a service handler ends the whole node, so what counts is the one input nobody thought of.",
    ["tree_exec_manager.py", "migrate_tree_files.py", "node.py", "data_types.py", "tree_edit_manager.py"],
    [("reading a file", "ros_bt_py/ros_bt_py/tree_exec_manager.py load_tree_from_file, parse_tree_yaml"),
     ("building the tree", "ros_bt_py/ros_bt_py/tree_exec_manager.py load_tree"),
     ("version gate", "ros_bt_py/ros_bt_py/migrate_tree_files.py")],
    "structured fuzzing of tree files and messages: generated valid trees with generated damage, an oracle for what must be refused, and follow-up operations on what was loaded",
    "Exceptions, hangs (CPU limit) and wrong verdicts are violations. Invalid input values in messages are not judged. message_to_yaml and set_message_fields of ROS are stand-ins here.",
    observe=["response of the service", "structure before and after", "files in a scratch directory"],
)

P(
    "C21",
    "Trees are stored only in the configured folders and not replaced unasked",
    "Saving a tree writes exactly one file, which lies in the storage folder given (which must be one of the configured ones) however the path is written, creates the folders leading to it, and reports where it is. "
    "An existing file is replaced only if overwriting is allowed; if renaming is allowed the tree goes to a new file next to it, with the same extension, and every existing file stays. "
    "A request that is refused says why and changes no file. Listings show exactly the files and folders of a storage folder, hidden ones only on request, each with its own id and the id of its parent, and other folders are not listed.",
    ["inputs", "histories"],
    "every sequence of save and list requests with every path, flag and storage folder",
    "Containment has to hold for every way to write a path; tests use friendly ones.",
    ["package_manager.py"],
    [("saving", "ros_bt_py/ros_bt_py/package_manager.py save_tree_to_path, make_filepath_unique"),
     ("listing", "ros_bt_py/ros_bt_py/package_manager.py get_folder_structure, path_to_dict")],
    "stateful property testing against a model of the folders in a scratch directory",
    "Paths reach at most to the top of the scratch directory. Symbolic links are not generated.",
    observe=["every file in the scratch directory before and after", "responses"],
)

P(
    "C14",
    "Values travel along wirings exactly when they are produced",
    "When a ticked node has produced a value that differs from its last one, every input wired to that output holds it as soon as the "
    "node's tick is over, flagged as updated until the reading node has been ticked; nothing else changes an input, and a node that is not ticked, "
    "or whose tick ends in an error, hands on nothing. Unchanged values are not handed on again. Setting up forgets all dynamic values, resetting "
    "forgets outputs and flags inputs; a node is broken if an input has no value when it is ticked, or if a target refuses its value. "
    "Values given to a tree from outside reach the inputs they are meant for before the next tick, values "
    "exported from it likewise, and the published data shows for each wiring the source's value, both types, and whether the target has it.",
    ["programs", "histories"],
    "every tree of nodes wired in any way that fits (several sources for one input, loops, wirings to control-flow nodes), every history of "
    "setup, ticks, interruptions, resets and shutdowns, every pattern of produced values and results, run directly or through a tree manager",
    "Whether an update is seen, lost or seen twice depends on the order in which nodes are ticked, reset and interrupted and on which values repeat; the tests wire two nodes once.",
    ["data_flow_manager.py", "node.py", "data_types.py", "tree_exec_manager.py"],
    [("pushing of updated outputs after a tick", "ros_bt_py/ros_bt_py/data_flow_manager.py"),
     ("clearing of update flags around a tick", "ros_bt_py/ros_bt_py/node.py")],
    "model-based property testing: generated wired trees and histories against a reference model of data flow",
    "Values of five data types; trees of depth two. Sampled, not exhaustive.",
    state=[("updated flag of every input and output", "a value that has not been handed on or read yet")],
    observe=["values and flags seen by ticked nodes", "published wiring data"],
)

P(
    "C07",
    "Every node keeps to its life cycle, whatever its implementation answers",
    "A node can be set up only when it is new or shut down; it cannot be ticked, interrupted or reset when it is new, shut down or broken, and such a call is refused "
    "without reaching its implementation. A call leaves the node in the state its implementation returned; an error makes it broken; a state that does not "
    "belong to the call is reported as an error. A node is not ticked while an input has no value. Shutting down reaches every node below exactly once, "
    "also past errors, and calls the implementation of none that was never set up or is shut down already. A node takes children only up to its number and each only once, at the place "
    "that was asked for, and gives back the ones that are removed; parents, positions, state messages and the list of nodes below always agree.",
    ["histories", "programs"],
    "every tree, every sequence of calls to any of its nodes (not just the root), and every answer of every hook, including errors and states that make no sense",
    "The tests call nodes in the order the tree manager would; the guards matter for all others, which arise after errors, edits and partial shutdowns.",
    ["node.py"],
    [("guards of setup, tick, untick, reset and shutdown", "ros_bt_py/ros_bt_py/node.py"),
     ("adding and removing children", "ros_bt_py/ros_bt_py/node.py")],
    "model-based property testing: generated call sequences on any node against a reference model of the life cycle",
    MODEL_NOTE,
    observe=["result and state after every call", "calls that reach the implementation"],
)

P(
    "C22",
    "A subtree node behaves like its tree, with that tree's inputs and outputs",
    "A subtree node loads the tree of its file, with ids and wirings as stored there and separate from every other node that uses the same file, also when it lies in a subtree itself. "
    "It has an input for every input node and an output for every output node of that tree, of their types. Setting up, ticking, interrupting, resetting and shutting down reach the root of that tree, "
    "whose state becomes that of the node. Values given to its inputs are there for the tree when it is ticked, values that reach output nodes leave it after the tick, and it is not ticked while an input has no value. "
    "Structure, current states and, on request, data of every subtree are published with the tree, each once and under an id of its own, unless publishing of subtrees is off.",
    ["programs", "histories"],
    "every tree with subtree nodes (nested, repeated, any wiring inside and outside), every history of ticks, interruptions, resets, shutdowns and changes of what is published",
    "Equivalence has to hold for every tree in a file and every point in time at which it is interrupted; the tests load two files and do not wire them.",
    ["ros_nodes/subtree.py", "nodes/io.py", "subtree_manager.py", "data_flow_manager.py"],
    [("subtree node", "ros_bt_py/ros_bt_py/ros_nodes/subtree.py"), ("input and output nodes", "ros_bt_py/ros_bt_py/nodes/io.py"),
     ("collection of what is published", "ros_bt_py/ros_bt_py/subtree_manager.py")],
    "model-based property testing: generated trees stored in files and histories against a reference model in which trees nest",
    "Nesting up to two levels, five data types. Sampled, not exhaustive.",
    observe=["states, inputs and calls of every node of every subtree", "published messages"],
)

P(
    "C05",
    "Inputs and outputs of a node take exactly the types chosen on that node",
    "Where inputs or outputs of a node follow a type that is itself an input (values, lists or dictionaries of a chosen type), a node made from a message takes there exactly the values of the type "
    "chosen in that message, or of the default type if none is, however the message orders its inputs, whatever is chosen on other nodes of the class, and with inputs and outputs a node adds by itself. "
    "Copies of a configuration follow the types chosen in it and are independent of it. Outputs are always dynamic only; a type as an output and a reference to anything "
    "but a type input are refused; extending a configuration adds everything of the other one or, where keys collide or numbers of children differ, fails with an error and keeps what was there.",
    ["configurations", "inputs"],
    "every node class and configuration with types and references, every chosen type with bounds and nesting, every value, any two nodes of a class",
    "The type of an input is a function of another input's value, over unboundedly many types; the tests look at a few fixed choices on fresh nodes.",
    ["data_types.py", "node_config.py", "node.py"],
    [("references", "ros_bt_py/ros_bt_py/data_types.py"), ("NodeConfig", "ros_bt_py/ros_bt_py/node_config.py"), ("Node.__init__, from_msg", "ros_bt_py/ros_bt_py/node.py")],
    "property-based testing: generated choices on every node class and generated configurations against an oracle for what a type accepts",
    "Acceptance is probed with generated members and a fixed set of other values. Sampled, not exhaustive.",
    observe=["acceptance of values by inputs and outputs", "refused configurations and messages"],
)

P(
    "C25",
    "Service nodes send one request per execution and output exactly its response",
    "A node calling a service sends one request, made of its current inputs, to the service of the current name and type at its first tick after a set-up, an interruption or a reset, and whenever the name or the request changed since its last tick; "
    "ticked again without changes it sends nothing and repeats its result. It is running until the response arrives, then succeeds and outputs the fields of the response; it fails if the request is cancelled or no response arrives within the time it waits. "
    "A request is cancelled when it times out, is replaced, or the node is interrupted, reset or shut down, and a response to it is never output. "
    "A node waiting for a service succeeds if the service is available, is running until the time it waits is over, and then fails; the time starts anew after interruptions and new names. "
    "Nodes have at most one client, and none after a reset or shutdown. Nodes that talk to ROS and can't be set up can be shut down.",
    ["histories", "inputs", "fault_sequences"],
    "every service type, every request and response, every history of ticks, interruptions, resets, shutdowns, new inputs, passing time, responses (also late ones), cancellations and services that come and go",
    "The result depends on the interleaving of ticks with responses, timeouts and changes; the tests that run do not tick these nodes.",
    ["ros_nodes/service.py", "node.py", "data_types.py"],
    [("services", "ros_bt_py/ros_bt_py/ros_nodes/service.py")],
    "stateful property-based testing: generated histories of a node and a stand-in for the middleware against a reference model",
    "Sampled, not exhaustive. Responses arrive between ticks.",
    observe=["requests and clients at the middleware", "node state", "outputs"],
)

P(
    "C26",
    "Action nodes report what became of their goal and leave no goal running",
    "A node calling an action sends one goal, made of its current inputs, to the action of the current name and type, at its first tick after a set-up, an interruption or a reset, and again when its inputs changed, after the previous goal has been cancelled or is over. "
    "It is running until the result is there, outputs the last feedback of its goal and the result, and succeeds only if the server says that the goal succeeded; it fails if the goal is rejected, aborted or cancelled by the server, or runs for longer than the timeout, in which case it is cancelled first. "
    "Ticked again without changes it repeats its result. Interrupted, reset or shut down, it cancels its goal once, at once or, if the server has not accepted it yet, as soon as it does. Outputs have the types of the fields of the result and the feedback. After a reset or shutdown no client is left but those that wait to cancel a goal.",
    ["histories", "inputs", "fault_sequences"],
    "every action type, every goal, result and feedback, every history of ticks, interruptions, resets, shutdowns, new inputs, passing time, and goals that are accepted, rejected, give feedback, finish or are cancelled at any point of it",
    "The result depends on the interleaving of ticks with five kinds of answers, timeouts and changes; no test of the repository ticks this node.",
    ["ros_nodes/action.py", "node.py", "data_types.py"],
    [("actions", "ros_bt_py/ros_bt_py/ros_nodes/action.py")],
    "stateful property-based testing: generated histories of a node and a stand-in for an action server against a reference model",
    "Sampled, not exhaustive. The server answers between ticks; it does not refuse to cancel a goal and gives no feedback after it was asked to.",
    observe=["goals, cancel requests and clients at the middleware", "node state", "outputs"],
)

P(
    "C27",
    "Topic and parameter nodes hand on exactly the latest message or parameter",
    "A subscriber is running until a message arrived since its last success, reset, or change of its topic name or quality of service, and then succeeds with the latest one; one with a memory succeeds with the latest message until it is older than the memory delay, then fails. "
    "A publisher publishes its message once each time it changed and succeeds. They use the current topic name and quality of service, from their first tick, with one connection, and none after a reset or shutdown; interruptions keep it and the message. "
    "A parameter node fails if the parameter isn't declared and outputs its value, or the default value if it has none; a value of another type than the chosen one is an error.",
    ["histories", "inputs"],
    "every message and parameter type, every value, every history of messages or parameters, passing time, new inputs, ticks, interruptions, resets and shutdowns",
    "The result depends on the interleaving of ticks with messages and on time; the tests that run do not tick these nodes.",
    ["ros_nodes/topic.py", "ros_nodes/param.py", "node.py"],
    [("topics", "ros_bt_py/ros_bt_py/ros_nodes/topic.py"), ("parameters", "ros_bt_py/ros_bt_py/ros_nodes/param.py")],
    "stateful property-based testing: generated histories of a node and a stand-in for the middleware against a reference model",
    "Sampled, not exhaustive. Messages arrive between ticks. Whether a new publisher repeats an unchanged message is not judged.",
    observe=["connections and messages at the middleware", "node state", "outputs"],
)

P(
    "C06",
    "Messages and their fields keep their values through nodes and data types",
    "For every field of a message type, the field's data type accepts what the field can hold, and refuses (without an exception) what it can't: other types, numbers out of the range of the integer type, texts and sequences beyond its bounds. "
    "A message serialised by its data type and read back is equal, at any depth of messages and sequences. "
    "A node that takes a message apart outputs exactly its fields; one that builds a message outputs the one with exactly the given fields, and is refused other values; taking apart what was put together gives the same fields. "
    "A node of the constants of a message outputs exactly these.",
    ["inputs", "histories"],
    "every field type (primitive, nested, bounded, arrays, sequences, default values), every value within and outside of it, every message",
    "Everything a tree exchanges with ROS passes through these types; the tests sample a few message types with default values.",
    ["ros_helpers.py", "data_types.py", "ros_nodes/message_converters.py", "ros_nodes/enum.py"],
    [("fields and types", "ros_bt_py/ros_bt_py/data_types.py")],
    "property-based testing: generated values of all field types against the limits of the interface definition, round trips of generated messages, and message nodes against a reference model",
    "Message types are those of the installed packages and a set of stand-ins for packages that are not installed. Octet fields with more than one byte, NaN and the bounds of float32 are not judged.",
    observe=["set_value and get_value of a field's type", "serialised values", "outputs", "node state"],
)

P(
    "C28",
    "The node's services act on its tree, and its topics show it as it is",
    "A node started with a default tree has loaded exactly that tree and carried out the configured command at the configured frequency; without one, or with a file that can't be loaded, it has an empty tree to edit. "
    "Each of its services does what its name says with that tree or the configured folders. "
    "After every request and tick the latest message of the structure topic, which new subscribers get as well, is the tree's structure, that of the state topic has the states of the tree and of all its nodes (after ticking until a result, possibly those of the result), "
    "and subtrees are included unless switched off. Data is published after each tick while that is switched on, and gone when it is switched off. "
    "The diagnostics are warnings, fine while ticking and errors after one, and carry the name of a loaded tree or that of its root. Shutting down the node shuts down a tree that is ticked.",
    ["histories", "configurations", "schedules"],
    "every tree, with and without subtrees, every history of edits, commands and ticks, every start configuration",
    "Clients see the tree only through these topics and services; a service connected to the wrong function or a state that is not published shows in no test of the managers.",
    ["tree_node.py", "tree_exec_manager.py", "subtree_manager.py"],
    [("services, topics", "ros_bt_py/ros_bt_py/tree_node.py"), ("publishing", "ros_bt_py/ros_bt_py/tree_exec_manager.py")],
    "stateful property-based testing: generated histories of requests to the node's services against reference models and what its topics show",
    "The middleware is a stand-in; the real node runs on it. Start-up follows the main function, which itself is not run. Between ticks data on the topic may be old.",
    observe=["service responses", "latest messages of the topics", "tree manager"],
)

P(
    "C31",
    "Diagnostics report every call of a node, and log messages where they come from",
    "While node diagnostics are collected, a message before and one after every set-up, tick, interruption, reset and shutdown of a node say which call of which node (name, id, class, module, path from the root) it is, nested as the calls are, in subtrees too; otherwise there are none. "
    "Switching them at any time, even within a tick, does not disturb the tree. "
    "A log message at or above the chosen level is published once, with its time, text and level, name and id of its tree and node, and file, function and line where it was logged, and goes to the log of ROS; messages below the level go nowhere, internal ones only to the log of ROS. Nothing is printed.",
    ["histories", "schedules"],
    "every tree, with and without subtrees, every history of commands, every moment of switching, every level and text",
    "Diagnosing a tree in the field relies on them; no test looks at these messages.",
    ["debug_manager.py", "logging_manager.py", "node.py"],
    [("node diagnostics", "ros_bt_py/ros_bt_py/debug_manager.py"), ("log messages", "ros_bt_py/ros_bt_py/logging_manager.py")],
    "stateful property-based testing: generated histories of commands and switches, checked against the calls leaves received and the messages they logged",
    "The end of a call in which a node raised is not judged. Calls that began before diagnostics were switched on may or may not be reported.",
    observe=["messages on the topics", "the log of ROS", "standard output"],
)

P(
    "C33",
    "A node made from a node's description is the same node; a wrong one is an error",
    "A node made from a message has the class, id, name (that of the class if empty), static and dynamic inputs and values of the message, and its own description shows exactly these; the message is not changed. "
    "A node made from that description has the same description and values. "
    "A message with an unknown module, class or input, an id that is none, an input of another kind or that can't be given in the way its node demands, or a reference to something that is no type, "
    "is refused with a reason; no message, however damaged, raises an exception, and refusing one does not affect nodes made later. "
    "Two nodes compare as equal exactly if their classes, ids, names, states, inputs, outputs, values, children and the ids of their parents do; comparing a node with anything never raises.",
    ["inputs", "fault_sequences"],
    "every node class, every set of values for its inputs, every name and id, damages of single fields of the message",
    "Trees are stored and edited through these messages, so the round trip has to hold for all classes and values; tests do it for a few nodes with default values.",
    ["node.py", "data_types.py", "node_config.py"],
    [("from_msg, to_structure_msg", "ros_bt_py/ros_bt_py/node.py"), ("(de)serialisation of types and values", "ros_bt_py/ros_bt_py/data_types.py")],
    "property-based testing: round trips of generated node messages of all classes, and generated damages of them",
    "Whether a value of the right kind but out of range is refused or replaced is not judged. Sampled, not exhaustive.",
    observe=["result of from_msg", "to_structure_msg", "values of inputs"],
)

P(
    "C12",
    "Throttles, waits and the current time follow the clock",
    "A wait is running until at least its duration has passed since it was first ticked after set-up or reset, then it succeeds, also if it was interrupted in between. "
    "A throttle does not tick its child while the last success or failure of the child is younger than its interval and repeats that result; otherwise it ticks the child, passes on running, and resets it after a result. "
    "A success throttle fails without ticking its child while the last success is younger than its interval, until it is reset; otherwise it is running or succeeds if its child does and fails if it fails. "
    "The time node outputs the time of the clock at its tick. Set-up after a shutdown starts all of this anew, and errors of children are passed on.",
    ["histories", "programs"],
    "every tree with these nodes, every history of ticks, interruptions, resets, shutdowns and passing time, every interval",
    "What a tick does depends on the times of all earlier ones; the tests tick one throttle twice.",
    ["ros_nodes/throttle.py", "ros_nodes/wait.py", "ros_nodes/time.py"],
    [("throttles", "ros_bt_py/ros_bt_py/ros_nodes/throttle.py"), ("wait", "ros_bt_py/ros_bt_py/ros_nodes/wait.py"), ("time", "ros_bt_py/ros_bt_py/ros_nodes/time.py")],
    "model-based property testing: generated trees and histories with a clock under control against an independent reference model",
    "Time runs forward. An age of exactly the interval of a throttle is not judged. " + MODEL_NOTE,
    observe=["state of every node after every step", "calls received by the children", "time output"],
)

P(
    "C13",
    "Utility bounds of a tree follow from those of its nodes and hold when it runs",
    "A sequence succeeds at the cost of all its children and fails at that of some children succeeding before one fails; a fallback and a name switch the other way round; parallel nodes need as many successes, or failures, as "
    "their result does, at best the cheapest and at worst the most expensive ones. Decorators pass on the bounds of their child, an optional one is executable without bounds if its child isn't, nodes that say nothing cost nothing. "
    "A bound is known only if every bound it is calculated from is. Where a child can't be executed, neither can its parent; errors are passed on, or count as not executable in sequences. "
    "For trees of sequences and fallbacks, the cost of what is executed lies within the bounds. Topic subscribers are executable if a publisher of their topic, type and quality of service exists, nodes for services and actions if their server does. A subtree has the bounds of its tree. Asking changes nothing and is possible at any time.",
    ["programs", "inputs"],
    "every tree of these nodes, every set of bounds (also unknown ones) of its leaves, every outcome of its leaves, before and after set-up",
    "Bounds are sums and extremes over unboundedly many paths through a tree; no test of the repository calculates any of them.",
    ["nodes/sequence.py", "nodes/fallback.py", "nodes/parallel.py", "nodes/decorators.py", "ros_nodes/topic.py", "ros_nodes/service.py", "ros_nodes/action.py", "ros_nodes/subtree.py", "node.py"],
    [("aggregation", "ros_bt_py/ros_bt_py/nodes/sequence.py"), ("aggregation", "ros_bt_py/ros_bt_py/nodes/fallback.py"), ("aggregation", "ros_bt_py/ros_bt_py/nodes/parallel.py"),
     ("Optional", "ros_bt_py/ros_bt_py/nodes/decorators.py"), ("subscribers", "ros_bt_py/ros_bt_py/ros_nodes/topic.py")],
    "property-based testing: generated trees and bounds against a reference formula, and against the cost of executing the tree",
    "Costs are multiples of 1/4 so that sums are exact. Sampled, not exhaustive.",
    observe=["calculate_utility", "states and calls of nodes"],
)

P(
    "C23",
    "Nodes on lists, dictionaries, messages and texts compute what they document",
    "The length of a list, the list with an element inserted or appended, an item of a list or dictionary, several items of a dictionary, a dictionary with an item set, a (nested) attribute of a message and the message with it set, "
    "joined and formatted texts (with the conversions u, l, c, s, r, a) and the two parts of a file name are exactly those of the current inputs, which stay as they are. "
    "Is-in-list fails if it isn't. A missing index, key, attribute or format field fails; a result that the output's type does not allow is an error; neither changes the output or raises. "
    "Getters first tick their child and pass on its failure or running, and are running while nothing has changed since their last tick, unless they succeed on stale data. "
    "Iterating over a list goes through all items in order, one per tick or one per success of the child, which is ticked from the tick after the item was put out; it starts anew after the end, a reset, or a changed list, continues after an interruption and fails when the child does.",
    ["inputs", "histories"],
    "every one of these nodes with every chosen type, every value, every child, every history of new values, ticks, interruptions, resets and shutdowns",
    "Results are functions of unboundedly many values and, through update flags, of the history; the tests that run do not tick any of these nodes.",
    ["nodes/list.py", "nodes/getters.py", "nodes/setters.py", "nodes/format.py", "node_config.py"],
    [("lists", "ros_bt_py/ros_bt_py/nodes/list.py"), ("getters", "ros_bt_py/ros_bt_py/nodes/getters.py"), ("setters", "ros_bt_py/ros_bt_py/nodes/setters.py"), ("texts", "ros_bt_py/ros_bt_py/nodes/format.py")],
    "model-based property testing: generated types, values and histories against reference functions and a reference model of update flags",
    "Whether an attribute that can't be set is a failure or an error is not judged. Sampled, not exhaustive.",
    observe=["state, inputs and outputs after every step", "calls received by the child"],
)

P(
    "C24",
    "Comparison, arithmetic and conversion give the right result or an error",
    "Comparisons succeed exactly if the current values are equal, or the first is less than the second, and fail otherwise; comparing new values only is running while neither value has changed since its last tick. "
    "Constants, pass-through and subtree input and output nodes put out exactly their input. Binary and unary operations put out the result of the named operator or function; "
    "where there is none (division by zero, domain errors, operators that don't exist for the type, overflows) or the type of the output does not allow it, the node is in error or fails, the output stays and nothing is raised. "
    "Conversion is possible between equal kinds, to texts, between integers and booleans and between integers and floats, is refused at set-up otherwise, and puts out the converted value. "
    "Random integers lie between minimum and maximum, both can occur, and a minimum above the maximum is an error.",
    ["inputs", "histories"],
    "every one of these nodes with every chosen type, every operator and value, every history of new values, ticks, interruptions, resets and shutdowns",
    "Partial operations fail for single values among unboundedly many; the tests that run do not tick any of these nodes.",
    ["nodes/compare.py", "nodes/maths.py", "nodes/constant.py", "nodes/passthrough_node.py", "nodes/io.py", "nodes/random_number.py"],
    [("comparison", "ros_bt_py/ros_bt_py/nodes/compare.py"), ("operations and conversion", "ros_bt_py/ros_bt_py/nodes/maths.py"), ("random numbers", "ros_bt_py/ros_bt_py/nodes/random_number.py")],
    "model-based property testing: generated types, operators, values and histories against reference functions",
    "Numbers are limited so that powers, shifts and factorials stay feasible. A random integer with equal minimum and maximum is not judged. Sampled, not exhaustive.",
    observe=["state, inputs and outputs after every step"],
)

P(
    "C29",
    "Nodes that read YAML files output what the file holds, or say why they can't",
    "The node for lists and the one for dictionaries take a path that starts with file:// or package://. If the file can be read and is a list, or dictionary, with at least one element, all of the chosen type, they succeed, "
    "and output its content, for lists its length, load_success true and no error message. If there is no such file or package, or the file is no YAML text or holds something else, they fail, with load_success false and an error message, "
    "and leave the content as it was. Elements of another type are a failure or an error. Nothing that a path or file contains raises an exception. The file is read at the first tick after a set-up, a reset or a change of the path; "
    "ticks in between, also after interruptions, repeat the result.",
    ["inputs", "histories"],
    "every path, every content of the file, every chosen type, every history of ticks, new paths, changed files, interruptions, resets and shutdowns",
    "Contents and paths are unboundedly many, and the result depends on the history; the repository's test of these nodes needs an installed ROS, samples a handful of files, and does not run here.",
    ["nodes/file.py"],
    [("reading a file", "ros_bt_py/ros_bt_py/nodes/file.py"), ("YamlList and YamlDict", "ros_bt_py/ros_bt_py/nodes/file.py")],
    "property-based testing and fuzzing: generated and damaged files, paths and histories against a reference model",
    "What happens with empty lists and dictionaries is not judged. Files lie in a scratch directory. Sampled, not exhaustive.",
    observe=["state and outputs after every step"],
)

P(
    "C32",
    "Clients are told exactly which node classes, messages and packages exist",
    "The list of available nodes holds every concrete node class that was registered, once, with its module, maximum number of children, tags, documentation and every input and output with its type and default, "
    "after every request: classes of modules that are asked for are added if the modules can be imported, and if not the request is refused with a reason. Making nodes of an entry, with any choice of its types, is possible and does not change the entry. "
    "The packages and the messages, services and actions published, at the start and while there are subscribers, are exactly those of the ament index, packages with their paths and messages with the types of all fields. "
    "The structure of a package that exists lists exactly its files and folders (hidden ones if asked for), and packages that don't exist are refused. Topics, services and actions of the ROS graph are published by name and type, as they are at that time.",
    ["inputs", "configurations", "histories"],
    "every set of node modules, intact or broken, every node class, every sequence of requests and nodes made in between, every ament index, every graph",
    "Editors build trees from these lists only. Classes, indices and histories are unboundedly many, and the repository has no test of these services that runs.",
    ["package_manager.py", "ros_helpers.py", "node.py", "tree_node.py"],
    [("list of available nodes", "ros_bt_py/ros_bt_py/package_manager.py"), ("publishing packages and interfaces", "ros_bt_py/ros_bt_py/package_manager.py"), ("publishing channels", "ros_bt_py/ros_bt_py/ros_helpers.py"), ("registering classes", "ros_bt_py/ros_bt_py/node.py")],
    "property-based testing: generated modules, classes, package indices and graphs against what was generated",
    "Modules that fail half-way, interface packages that can't be imported and packages of the ROS distribution itself (which may be left out) are not judged. Sampled, not exhaustive.",
    observe=["responses and latched topics, as clients see them"],
)
