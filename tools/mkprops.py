"""Writes properties.jsonl (kept as source because JSON lines are hard to edit by hand)."""
import json
import os

P = []


def p(id, title, statement, over, text, why, files, mech, obs, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": ["src/repast4py/" + f for f in files],
                          "mechanism": [{"name": a, "where": "src/repast4py/" + b} for a, b in mech],
                          "state": [{"name": a, "meaning": b, "where": "src/repast4py/" + c} for a, b, c in (state or [])],
                          "observe_at": obs, "hook_needed": hook}})


MPI_T = "the tests run a handful of fixed scripts on 1 to 9 ranks, each with one hand-written placement of a few agents and one or two synchronizations"

p("C01", "Agents are conserved and have exactly one owner",
  "After every synchronization (with or without ghosts) or agent move, every agent that was created and not removed is local to exactly one rank, "
  "and no rank holds an agent that was never added or has been removed. "
  "An agent that moved to another rank is, there, the local agent with its identity and type and is listed once among that rank's agents.",
  ["schedules", "histories", "configurations"],
  "every history of adds, moves, removals, requests and hand-overs on every number of ranks, space layout and order in which ranks run and messages arrive",
  MPI_T + "; losing or duplicating an agent needs several agents crossing several borders in one interval, leaving two spaces at once, or dying or being requested while moving",
  ["context.py", "core.py", "space.py", "distributed_space.h"],
  [("SharedContext.synchronize / _gather_oob_data / _process_recv_oob_data", "context.py"), ("SharedContext.move_agents", "context.py"),
   ("AgentManager local and ghost collections", "core.py")],
  ["SharedContext.agents/agent/size/ghost_agent on every rank after each collective"],
  [("local agents", "agents owned by this rank", "core.py"), ("out of bounds agents", "agents that walked off this rank since the last synchronization", "distributed_space.h")])

p("C02", "Ghosts and moved agents carry their owner's state",
  "After a synchronization every ghost copy on any rank shows the state its owner's agent had when the synchronization began and names that owner's rank. "
  "An agent that changed rank arrives with exactly the state it left with, and synchronizing never changes the state of a local agent.",
  ["schedules", "histories", "configurations"],
  "every interleaving of state changes, moves, requests, network edges and removals between synchronizations, on every number of ranks",
  MPI_T + "; stale ghosts appear when an agent is a ghost for several reasons at once (buffer, request, edge) and one of them ends or its owner changes",
  ["context.py", "core.py", "space.py", "network.py"],
  [("SharedContext._update_ghosts", "context.py"), ("AgentManager ghosted bookkeeping", "core.py")],
  ["agent state, local_rank of ghosts and locals after each collective"],
  [("ghosted agents", "which ranks hold a ghost of a local agent and for how many projections", "core.py")])

p("C03", "Each agent is owned where its location is, and borders place it right",
  "After a synchronization an agent located in a shared grid or continuous space is local to the rank whose local bounds contain that location, the location being the one requested, "
  "clamped (sticky) or wrapped (periodic) into the global bounds. "
  "A location inside the bounds is stored exactly as given, and crossing to another rank does not alter it.",
  ["schedules", "inputs", "histories", "configurations"],
  "every sequence of moves to any coordinates inside or outside the bounds, for any bounds, dimensions, border type, process count and buffer size",
  "the space tests move one agent by a few hand-picked offsets inside one fixed layout; coordinates on or just past a rank border, several periods away, or at the excluded upper bound are not tried",
  ["borders.h", "space.h", "grid.h", "cspace.h", "distributed_space.h", "distributed_space.cpp", "space.py"],
  [("StickyBorders/PeriodicBorders transform", "borders.h"), ("DistributedCartesianSpace::move and out of bounds detection", "distributed_space.h")],
  ["return value of move, get_location, get_local_bounds, owning rank after synchronize"])

p("C04", "The buffer of a shared space holds exactly its neighbours' edge agents",
  "After a synchronization the ghosts in a rank's grid or continuous space are exactly the agents owned by other ranks whose location lies within the buffer size of its local bounds (across the periodic border where there is one), each at its true location, once. "
  "An agent that leaves the zone, or is no longer owned by another rank, is no longer a ghost there unless something else needs it.",
  ["schedules", "histories", "configurations"],
  "every layout of ranks in 1, 2 or 3 dimensions, border type, buffer size, number of spaces, and every history of moves",
  "the buffer tests place a few agents on a 2x2 or 3x3 layout; layouts in which one rank is a neighbour on several sides, corners in 3D, and repeated entering and leaving are not tried",
  ["space.py", "context.py", "core.py", "distributed_space.cpp"],
  [("SharedGrid/SharedCSpace _fill_send_data and _process_recv_data", "space.py"), ("compute_neighbor_buffers", "distributed_space.cpp")],
  ["ghost_agent, get_location, get_agents and iteration on every rank after synchronize"],
  [("buffered agents", "ghosts this rank received for its buffer", "space.py")])

p("C05", "A removed agent disappears everywhere and never returns",
  "Once an agent is removed from its context it is at once gone from every projection on its rank, and after the next synchronization no rank has it as a local agent, a ghost, a space occupant or a network node or edge end. "
  "It never comes back, whatever buffers, requests, edges or moves were in progress.",
  ["schedules", "histories", "configurations"],
  "every history in which removals are mixed with moves across ranks, ghosting, requests and edges",
  "the tests remove one agent in an otherwise quiet context; removal in the same interval as a move, request or edge change is not tried",
  ["context.py", "core.py", "space.py", "network.py"],
  [("SharedContext.remove / _update_removed_ghosts", "context.py"), ("AgentManager.delete_local", "core.py")],
  ["agents, ghost_agent, projection contents on all ranks after each collective"],
  [("removed ghosted agents", "removed agents whose ghosts must be deleted", "context.py")])

p("C06", "Requested agents arrive as ghosts and stay current until their owner changes",
  "Requesting agents returns each requested agent once, as a ghost that is in every projection, to exactly the ranks that asked, with its owner's state. "
  "A requested ghost stays and is kept up to date by every later synchronization, however often it is requested, enters or leaves a buffer or gains and loses edges, until the agent becomes local there or is removed.",
  ["schedules", "histories", "configurations"],
  "every pattern of requests (several ranks, repeated, of agents already ghosted) mixed with moves, edges, removals and synchronizations",
  "the tests request an agent once and check it once; repeated requests, requests of buffered ghosts and moves of the requested agent are not tried",
  ["context.py", "core.py"],
  [("SharedContext.request_agents / _send_requests", "context.py"), ("AgentManager requested ghosts", "core.py")],
  ["return value of request_agents, ghost_agent and ghost state after later collectives"])

p("C07", "A network edge exists, with equal attributes, on exactly its ends' ranks",
  "After a synchronization an edge is present on the ranks of its two ends and on no other, with the same direction and attributes, whichever end's rank added, changed or removed it, or took an end out of the network. "
  "Its ends are the local agents and ghosts of that rank's context, and a ghost held only for edges disappears with its last edge.",
  ["schedules", "histories", "configurations"],
  "every history of adding, changing, removing and clearing edges of directed and undirected networks from either end's rank, with agents removed, requested and moved in between, on every number of ranks",
  MPI_T + "; they always change an edge on the rank that created it and synchronize after each change",
  ["network.py", "context.py", "core.py"],
  [("SharedNetwork synchronisation of new, changed and removed edges", "network.py"), ("SharedContext.synchronize", "context.py")],
  ["graph nodes and edges, num_edges, contains_edge, ghost_agent on every rank"],
  [("edges with a ghost end", "edges other ranks must be told about", "network.py")])

p("C08", "Edges follow their agents when agents change rank",
  "When agents change rank, by walking over a border or by being moved, all their edges keep existing with their direction and attributes between the same agents, wherever both ends now live. "
  "The ranks they left keep a ghost, edge or node for them only where one of their own agents is still linked to them.",
  ["schedules", "histories", "configurations"],
  "every combination of one or both ends moving, to the same or different ranks, in the same interval as edge changes, with other reasons for being a ghost",
  "the tests move one end of a few edges between two or three ranks; both ends moving at once, moving onto the rank that already holds the ghost, and edges changed in the same interval are not tried",
  ["network.py", "context.py", "core.py"],
  [("SharedNetwork hand-over of a moving agent's edges", "network.py"), ("SharedContext.move_agents / synchronize", "context.py")],
  ["graph nodes and edges, ghosts and locals on every rank after each collective"])

p("C09", "A network file gives every rank its part of the same graph",
  "Writing a network description and reading it back on any number of ranks creates each listed agent on its assigned rank, with its attributes, and every edge with its direction and attributes on exactly the ranks of its ends. "
  "Reading yields the same global network whatever the rank count and message timing, and each rank holds only ghosts that its own edges need. The partition written is the one chosen by the partitioner or the given generator, and a malformed line is reported.",
  ["schedules", "inputs", "configurations"],
  "every graph, assignment of nodes to ranks, attribute set, and every order in which ranks run",
  "the tests read a few fixed files on at most four ranks",
  ["network.py"],
  [("read_network / write_network", "network.py")],
  ["context agents and network edges on every rank after read_network"])

p("C10", "Value layer buffers mirror the neighbours' cells",
  "After synchronizing, every cell a rank can read from its value layer, own or buffer, has the value its owner last wrote, and cells beyond a non-periodic border are left alone. "
  "Values written on one rank become visible to others only through synchronization, and in a read-write layer writes stay unread until the layers are swapped. A ValueLayer that is not shared returns at each location, and among the neighbours of a location, what was last written there.",
  ["schedules", "histories", "configurations"],
  "every grid shape, origin, process layout, border type and buffer size, and every history of writes, synchronizations and swaps",
  "the tests use one or two fixed layouts with origin 0; other process layouts and origins exercise different index arithmetic",
  ["value_layer.py", "context.py"],
  [("SharedValueLayer buffer exchange", "value_layer.py"), ("ReadWriteValueLayer swap and synchronisation", "value_layer.py")],
  ["get, get_nghs and the local grid on every rank after synchronization"])

p("C11", "Events run once, in tick and priority order, as scheduled",
  "Every scheduled event that is not voided runs exactly once per occurrence at its tick, in tick order; within a tick FIRST events precede and LAST events follow all others, in scheduling order, and prioritised events run in priority order. "
  "This also holds for events scheduled, voided or rescheduled by events of the tick being executed; events scheduled for the past never run.",
  ["histories", "programs"],
  "every program of one-time and repeating events, priorities and fractional ticks, including events that schedule or void others while running",
  "the tests run short fixed schedules; events that schedule same-tick events in the middle of the FIRST, prioritised or LAST phase are hardly tried",
  ["schedule.py"],
  [("Schedule / ScheduleGroup execution and re-sorting", "schedule.py")],
  ["the sequence of executed events with their ticks"],
  [("event queue", "pending events by tick and scheduling order", "schedule.py"), ("executing group", "events of the current tick", "schedule.py")])

p("C12", "All ranks run the same ticks and stop together",
  "Every rank executes its events at the global tick, no rank runs an event of a tick before all ranks have finished the earlier ticks, and every event due before the stop runs. "
  "All ranks end after the same tick when a stop is reached, also when it is requested while running by one rank or all, and then run their end-of-simulation events once.",
  ["schedules", "programs", "configurations"],
  "every set of per-rank schedules with different ticks, on every number of ranks and every relative speed of ranks",
  "the schedule tests run on one rank, or with the same events on each",
  ["schedule.py"],
  [("SharedScheduleRunner.execute / next tick agreement", "schedule.py")],
  ["per-rank event logs merged by global order of simulation steps"])

p("C13", "Every logged value is recorded once, in order, with its tick",
  "The log file of a tabular logger contains every row logged on every rank exactly once, each rank's rows in its logging order, under one header. "
  "A reduced data set contains one row per logged tick holding that tick and the reduction of that tick's values over all ranks, whatever the buffer size, write points and names used.",
  ["schedules", "histories", "configurations"],
  "every history of logging and writing on every number of ranks, buffer sizes, separators and file names",
  "the tests log a few rows at fixed ticks with one buffer size",
  ["logging.py"],
  [("ReducingDataSet / ReducingDataLogger / DataSource reduction", "logging.py"), ("TabularLogger.write", "logging.py")],
  ["file contents after close and after each write"])

p("C14", "A failing or full disk never corrupts, duplicates or misattributes log data",
  "When writing log data fails (disk full, I/O error, short write) the caller is told, and what the file then holds is a prefix-consistent part of what was logged: complete earlier writes are intact, no row appears twice, and no value is paired with another row's tick. "
  "Logging that continues after the failure keeps these guarantees, and a logger never overwrites an existing file of an earlier run.",
  ["fault_sequences", "crash_points", "histories"],
  "every history of logging and writing with open, write and close failures and crashes at any of them",
  "no test makes a write fail or interrupts one",
  ["logging.py", "util.py"],
  [("ReducingDataSet.write / TabularLogger.write", "logging.py"), ("find_free_filename", "util.py")],
  ["exceptions raised to callers and file contents after faults"])

p("C15", "A run restored from a checkpoint continues as if never interrupted",
  "A job whose processes are killed after their checkpoints are on disk, and which is restarted from them, produces from the checkpoint on the same events in the same order at the same ticks, the same random numbers, agents, locations and network edges as a run that was not interrupted. "
  "Restoring reproduces exactly what was saved: no agent, event, edge or attribute is missing, extra, reversed or changed.",
  ["crash_points", "histories", "schedules", "configurations"],
  "every model built from scheduled events, random draws, agents, spaces and networks, every checkpoint tick and every point at which the processes die afterwards",
  "the tests save and restore each ingredient separately, once, in a quiet state and mostly on one rank",
  ["checkpoint.py", "schedule.py", "random.py"],
  [("Checkpoint.save_* / restore_*", "checkpoint.py"), ("NetworkRestorer", "checkpoint.py")],
  ["event traces, agent states, locations, edges and random draws of the restored run against the uninterrupted one"])

p("C16", "Same seed and rank count: same run, whatever the timing",
  "A model that draws only from the seeded random generators gives identical agents, states, locations, edges, event order and log files on every execution with the same seed and number of ranks. "
  "Nothing depends on the relative speed of ranks, the order in which messages arrive, object addresses or hash seeds.",
  ["schedules", "configurations"],
  "every pair of rank interleavings and message timings of the same model, and every hash seed",
  "tests run each script once and compare with fixed values; they do not vary timing",
  ["context.py", "space.py", "network.py", "schedule.py", "random.py", "logging.py"],
  [("ordered containers and rank-ordered collectives", "context.py"), ("random.init", "random.py")],
  ["complete observable state and files of two differently scheduled executions"])

p("C17", "Collective operations match on all ranks: no deadlock, no mismatch",
  "When all ranks make the same sequence of synchronizations, requests, agent moves, schedule steps and log writes, every call returns on every rank within a bounded number of steps and the ranks' communications always match. "
  "What an individual rank owns, asks for, logs or removes, including nothing at all, never changes which communications it takes part in.",
  ["schedules", "histories", "configurations"],
  "every history in which ranks hold different, possibly empty, sets of agents, requests, edges and rows, at every relative speed of ranks",
  "a mismatch needs one rank to take a different branch from the others; the fixed scripts treat ranks alike",
  ["context.py", "space.py", "network.py", "value_layer.py", "schedule.py", "logging.py", "distributed_space.cpp"],
  [("all collective calls of the public operations", "context.py")],
  ["simulated communication layer: unmatched collectives, ranks blocked for ever, steps to completion"])

p("C18", "Space occupancy and queries agree with the agents' locations",
  "At every moment a grid or continuous space reports at a point exactly the agents located there, in arrival order, respects single occupancy, and finds within any box or set of points exactly the agents located in it. "
  "Moving, removing and re-adding agents never loses, duplicates or leaves behind an entry, also when many agents share a location. "
  "Iterating over what a query found gives the agents that were there when the iteration began, even if they are moved or removed meanwhile.",
  ["histories", "inputs", "configurations"],
  "every history of moves, removals and queries, any number of agents per location, with agents arriving from and leaving to other ranks in between",
  "the tests move a few agents among a few points; the search tree of a continuous space splits only with many agents, and ghosts come and go only across synchronizations",
  ["space.h", "grid.h", "cspace.h", "occupancy.h", "SpatialTree.h", "SpatialTree.cpp", "space.py"],
  [("BaseSpace/occupancy bookkeeping", "space.h"), ("SpatialTree", "SpatialTree.cpp")],
  ["get_agent, get_agents, get_num_agents, get_location, get_agents_within on every rank at any time"],
  [("agent-location map", "location of each agent", "space.h"), ("location-agents map", "agents at each location", "occupancy.h")])

p("C19", "The ranks' local bounds tile the global bounds",
  "For any global bounds, dimensions and number of ranks, the local bounds of all ranks are disjoint and together cover the global bounds exactly, and every rank derives the same partition. "
  "Coordinates, neighbours and process grid agree with it.",
  ["configurations", "schedules"],
  "every bounds, dimension count, process layout, border type and number of ranks",
  "the tests check a few layouts whose extents divide evenly",
  ["distributed_space.cpp", "distributed_space.h", "space.py", "geometry.py"],
  [("CartesianTopology", "distributed_space.cpp")],
  ["get_local_bounds and topology coordinates on all ranks"])

p("C20", "Projections always hold exactly their context's agents",
  "Every agent of a context, local or requested, is a member of each of the context's projections, also of projections added later, and no projection holds an agent its context does not know; an agent taken out of one projection is out of that one only. "
  "Adding, removing, requesting, moving and synchronizing agents keep this so, and the context's counts and listings by type agree with it.",
  ["schedules", "histories", "configurations"],
  "every history of adds, removals, requests and moves with any set of grids, continuous spaces and networks",
  MPI_T + "; they do not compare every projection's members with the context's after each step",
  ["context.py", "core.py", "space.py", "network.py"],
  [("SharedContext.add/remove/add_projection/_process_recv_oob_data", "context.py")],
  ["membership, iteration, size and contains_type after each step"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
