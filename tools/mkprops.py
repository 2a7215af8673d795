"""Writes properties.jsonl (kept as a script so that the long lines stay editable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": ["simplegrid/" + f for f in files],
                          "state": [{"name": n, "meaning": m, "where": "simplegrid/" + w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": "simplegrid/" + w} for n, w in mech],
                          "observe_at": observe, "hook_needed": hook}})

prop("C01", "A grid write that reports success has stored the complete, exact file",
     "When writing a grid file reports success, the file at that path then holds exactly the documented stream: the 16 fields in their conventional order, each as (ni+1)x(nj+1) column-major big-endian doubles with zero padding, absent fields as NaN, and not a byte more, whatever the path held before. Whatever the disk does meanwhile (short writes, interrupted calls, a full disk, an error on open, on any write or at the final close), success is reported only in that case and an error reaches the caller in every other.",
     ["fault_sequences", "inputs", "histories"],
     "for every grid (any cell counts, any values and memory layout, any absent fields), every previous content of the path and every sequence of disk faults during the write",
     "The tests write one grid to a healthy disk; nothing in them makes a write, a flush or a close fail, which is where data is lost silently, and they read back with the same package.",
     ["gridio.py", "mitgridfilefields.py"],
     [("write_mitgridfile", "gridio.py"), ("field order, padding and byte order tables", "mitgridfilefields.py")],
     ["return value or exception of write_mitgridfile", "bytes of the file after the call and after the process ended"])

prop("C02", "A grid file torn by a killed writer is never taken for a grid",
     "If a process that is writing a grid file is killed at any instant, or the write fails at any point, a later read of that path with the same cell counts returns exactly the complete new grid or exactly the grid that was complete there before, or it raises an error. It never returns a mixed, shifted, shortened or padded grid.",
     ["crash_points", "fault_sequences", "inputs"],
     "for every pair of old and new grids, every crash point (including inside a write) or write fault, and every reader",
     "No test kills a writer; the number of crash points is the number of bytes of the file.",
     ["gridio.py", "mkgrid.py", "regrid.py", "addfringe.py", "stitch.py"],
     [("write_mitgridfile truncates and streams", "gridio.py"), ("read_mitgridfile size check by reshape", "gridio.py")],
     ["read_mitgridfile, regrid, addfringe and stitch on the torn file"])

prop("C03", "Reading a grid gives exactly what is stored, or an error, whatever the disk does",
     "Reading a grid file, or the XG/YG coordinate files accepted instead of one, yields exactly the stored fields trimmed to their documented sizes, or raises an error. That is so under partial reads, interrupted reads, read errors and truncation at any byte (of a text file: anywhere but inside its last number), loss of lines or columns, and missing or malformed numbers in a text file; a coordinate file of more than the expected size is refused; with strict checking on, a grid with any non-zero value in any padding row or column is rejected, and one with zero padding never is.",
     ["fault_sequences", "inputs", "histories"],
     "for every grid file (any cell counts and values), every truncation point, every damaged padding entry and every sequence of read faults",
     "The tests read a handful of intact files; none truncates a file, fails a read or damages padding.",
     ["gridio.py", "regrid.py", "mitgridfilefields.py"],
     [("read_mitgridfile reshape, strict check and trimming", "gridio.py"), ("xg_file/yg_file input", "regrid.py")],
     ["return value or exception of read_mitgridfile and of regrid on file input"])

prop("C04", "An MDS read returns exactly the stored data or an error",
     "Reading an MDS meta/data set returns exactly the values stored at their global positions (fill value where no tile exists), independent of the order in which the file system lists tiles, of partial reads and of how the data is fetched (whole file, selected records, levels or region, memory map). If a needed data or meta file is missing, unreadable, truncated, inconsistent (also with another tile of the set), or disappears or shrinks during the read, an error is raised instead of wrong or partial data.",
     ["fault_sequences", "schedules", "inputs"],
     "for every set of tiles, iterations, records, precision and byte order, every selection, every directory order, every sequence of read faults and every action of another process between two I/O calls",
     "There is no test of the MDS reader at all; directory order, read faults and concurrent removal cannot be produced from a test without a simulated disk.",
     ["mds.py"],
     [("rdmds tile assembly", "mds.py"), ("parsemeta/readmeta", "mds.py"), ("scanforfiles", "mds.py")],
     ["return value or exception of rdmds"])

prop("C05", "An MDS write that reports success is complete; a torn one is never misread",
     "When writing an MDS set returns, its meta and data files hold exactly the array passed in (in the requested precision and byte order) and describe it correctly, whatever was there before; if the disk refuses or loses any part, an error is raised. If the writer is killed or fails at any point, a later read yields the complete new data, the complete previous data, or an error.",
     ["crash_points", "fault_sequences", "inputs"],
     "for every array, precision, byte order, record split and previous content, every disk fault and every crash point",
     "There is no test of the MDS writer; the crash points lie between and inside two files.",
     ["mds.py"],
     [("wrmds: .meta and .data", "mds.py")],
     ["return or exception of wrmds", "rdmds by another process afterwards", "bytes of both files"])

prop("C06", "Grid import from MITgcm output never turns unreadable data into absent data",
     "Importing a grid from a run directory gives every field that is present, exactly as stored and placed, and marks as absent only fields that have no metadata files. A field that is present but cannot be read (I/O error, truncated or removed data, damaged metadata, interrupt, lack of memory) makes the import fail with an error.",
     ["fault_sequences", "inputs", "schedules"],
     "for every subset of present fields, tiling and precision, and every fault, removal, interrupt or allocation failure during the import",
     "The import has no test; a blanket handler that hides a fault looks the same as a missing field on a healthy disk.",
     ["mds2mitgrid.py", "mds.py"],
     [("per-field try/except", "mds2mitgrid.py"), ("rdmds", "mds.py")],
     ["return value or exception of mds2mitgrid"])

prop("C07", "Inputs are never modified, however the operation ends",
     "No operation changes the arrays, dictionaries or files passed to it as input: they compare equal, bit for bit and with the same keys and shapes, at every moment while it runs and after it succeeded, failed or was interrupted. Results share no memory with those arrays in a way that changes them through the operation itself.",
     ["fault_sequences", "inputs", "histories"],
     "for every operation, every input, every intermediate instant, and every way of ending: success, error, disk fault, interrupt, allocation failure",
     "The tests look at results only; that an input is rotated, filled or rewritten in place on some path shows neither in the result nor without a fault at the right moment.",
     ["regrid.py", "computegrid.py", "matchedges.py", "addfringe.py", "stitch.py", "util.py", "gridio.py", "mds.py", "getobcs.py"],
     [("mitgrid_matrices input", "regrid.py"), ("np.copy in fill", "computegrid.py"), ("nditer readwrite on tile A", "addfringe.py")],
     ["snapshots of inputs taken during and after the call", "bytes of input files"])

prop("C08", "Concurrent callers get exactly the results they would get alone",
     "When several threads of one process call the package at once, on shared read-only inputs and distinct outputs, each call returns exactly, bit for bit, what it returns when run alone (or fails with the same kind of error), and every output file has the same bytes. This holds for every interleaving, and no call changes what another one observes of its inputs.",
     ["schedules", "inputs"],
     "for every set of two to four operations and every interleaving of their steps",
     "The tests are single-threaded; an interleaving is a choice of the scheduler that no test controls.",
     ["mds.py", "regrid.py", "computegrid.py", "util.py", "matchedges.py", "gridio.py", "mkgrid.py"],
     [("module state (_currentline)", "mds.py"), ("warnings filters changed process-wide", "util.py"), ("shared mitgrid_matrices", "regrid.py")],
     ["return values, exceptions and output bytes per thread"],
     [("_currentline", "last metadata line parsed", "mds.py")])

prop("C09", "What a call does never depends on earlier calls and leaves no residue",
     "The result of a call depends only on its arguments and the files it reads, never on what the process did before: earlier successful, failed or interrupted calls, and callers changing results they were given. A call that has ended leaves nothing behind in the process but its result: warning filters, numpy error and print settings, random state, working directory, umask, environment, signal handlers, open files, threads and module-level settings are as before.",
     ["histories", "fault_sequences"],
     "for every history of calls, faults and interrupts preceding a call, and every operation",
     "Each test runs one call or compares one result; caches, aliased module state and process-wide settings only show over histories.",
     ["util.py", "mds.py", "computegrid.py", "config.py", "mitgridfilefields.py", "regrid.py", "gridio.py"],
     [("warnings filter set in squad_uarea", "util.py"), ("module tables and defaults", "mitgridfilefields.py"), ("_currentline", "mds.py")],
     ["outcome after a history against the outcome in a fresh process", "process state before and after each call"])

prop("C10", "Interrupts and failed allocations never end as success with wrong data",
     "If an interrupt (Ctrl-C, SIGINT) or an allocation failure strikes at any point of an operation, the operation either raises or returns exactly the correct result; it never returns a partial or different one. The same operation repeated afterwards in the same process gives exactly the normal result.",
     ["fault_sequences", "schedules"],
     "for every operation and every point of its execution at which an interrupt or MemoryError is delivered",
     "Delivery points number thousands per call and are decided by the scheduler; no test delivers any.",
     ["mds2mitgrid.py", "gridio.py", "mds.py", "regrid.py", "computegrid.py", "stitch.py", "addfringe.py", "mkgrid.py"],
     [("bare except around a field read", "mds2mitgrid.py"), ("file writing loops", "gridio.py")],
     ["return value, exception, output files"])

prop("C11", "Commands: exit status 0 means the output file is the function's result",
     "When sgmkgrid, sgregrid, sgaddfringe, sgstitch or sggetobcs exits with status 0, its output files hold exactly the result the corresponding Python call gives for the same inputs, with and without --verbose and also when the output replaces an input or an existing file; inputs are otherwise untouched and no other file is left behind. On any failure (bad or unreadable input, disk fault, interrupt, failing standard output) the status is non-zero, and if it failed before output began an existing output file is untouched.",
     ["fault_sequences", "inputs", "histories"],
     "for every command, argument set, previous content of the output path and every fault during the run",
     "The tests call the Python functions; the command entry points, their argument wiring and their behaviour when something fails are never run.",
     ["mkgrid.py", "regrid.py", "addfringe.py", "stitch.py", "getobcs.py", "gridio.py"],
     [("main()", "mkgrid.py"), ("main()", "regrid.py"), ("main()", "addfringe.py"), ("main()", "stitch.py"), ("main()", "getobcs.py")],
     ["exit status", "bytes of every file of the scratch disk before and after"])

prop("C12", "Interrupted workflows that are retried converge to the fault-free result",
     "A workflow of grid operations connected by files (create, refine, add fringe, join, re-read) in which steps fail, are interrupted or are killed and are then simply run again ends, once the faults stop, with every step successful and every file byte for byte what a run without faults produces. No step succeeds on an incomplete intermediate file.",
     ["histories", "crash_points", "fault_sequences"],
     "for every workflow and every sequence of crashes and faults over its steps, followed by finitely many retries",
     "Tests run single steps on complete files and never restart anything.",
     ["gridio.py", "mkgrid.py", "regrid.py", "addfringe.py", "stitch.py"],
     [("output truncated then streamed", "gridio.py"), ("short input rejected", "gridio.py")],
     ["status of each step", "bytes of all files at the end"])

prop("C13", "Created and refined grids are the great-circle subdivision of their corners",
     "Along any history of creating and refining grids through files, with any faults and retries in it, every grid stored by a step that reports success preserves the selected existing corners bit for bit (north-west at lowest i and highest j), places all other corners and centres by great-circle subdivision on the sphere (longitudes from 0 to 360 where no existing corner is negative, else from -180 to 180), has lengths equal to the great-circle distances and areas equal to the quadrilateral areas between those points, and leaves zero the boundary entries that need neighbours. The number of cells is the number selected times the subdivision factors.",
     ["histories", "inputs", "fault_sequences"],
     "for every domain, orientation and subdivision, every chain of refinements, every way of passing the grid on (memory, grid file, coordinate files) and every fault sequence on the way",
     "The tests compare a few grids to stored results of the same code, for one step each.",
     ["computegrid.py", "mkgrid.py", "regrid.py", "util.py", "gridio.py"],
     [("fill: x edges then y lines", "computegrid.py"), ("edges, areas, tomitgrid", "computegrid.py"), ("rotation and corner location", "regrid.py")],
     ["stored grids compared with an independent model of the geometry"])

prop("C14", "Joining adjacent tiles yields the concatenation with one shared edge",
     "Along any history of making, splitting and joining tiles through files, with any faults and retries in it, adding a fringe and joining never alter a non-zero value of the first tile, fill zero entries only with the true geometry, and a joined grid is the exact concatenation of both tiles sharing one edge taken from the first, for all four relative positions. Boundary entries along the shared edge are given their true lengths and areas, and tiles without a common edge (one whose points are all the same) are refused.",
     ["histories", "inputs", "fault_sequences"],
     "for every pair of tiles in any relative position, every order of joining, and every fault sequence on the way",
     "The tests compare single joins to stored results of the same code.",
     ["addfringe.py", "stitch.py", "matchedges.py", "computegrid.py", "gridio.py"],
     [("merge of non-zero values", "addfringe.py"), ("concatenation per edge pair", "stitch.py"), ("edge detection", "matchedges.py")],
     ["stored grids compared with an independent model"])

prop("C15", "Boundary-condition files are complete, correctly laid out, and never stale",
     "When generating open boundary conditions reports success, the output directory holds, for each response present and each boundary requested, exactly the interpolated boundary values for all cells, depths and times as column-major big-endian doubles, computed with weights for these two grids and not for others used earlier with the same directory; files of boundaries switched off are not touched. Unreadable results, disk faults and a killed run followed by a retry never lead to a success with missing, partial, stale or differently ordered data.",
     ["fault_sequences", "histories", "inputs"],
     "for every pair of parent and regional grids, set of responses, times and depths, boundary index vectors, previous runs in the same directory and fault sequence",
     "The one test of this part needs ESMF and writes to a healthy, empty directory.",
     ["getobcs.py", "mds.py", "mds2mitgrid.py", "regrid.py"],
     [("weightfilename and reuse_weights", "getobcs.py"), ("output loop", "getobcs.py"), ("boundary index vectors", "getobcs.py")],
     ["bytes of OB* files", "exception or return of getobcs"])

# pure functions of their input: listed because users rely on them, not claimed by simulation
prop("N01", "Nearest-point search finds a closest grid point",
     "The nearest-point search returns the indices of a grid point at minimal great-circle distance from the query, and that distance.",
     ["inputs"], "for every query point and coordinate arrays", "Tests sample three points.",
     ["util.py"], [("nearest", "util.py")], ["return value of nearest"])
prop("N02", "Areas are accurate on both sides of the planar/spherical switch",
     "Cell areas agree with the exact spherical areas to a stated relative accuracy for every cell size, aspect and position, on both sides of the planar/spherical transition.",
     ["inputs"], "for every quadrilateral", "Tests compare a few cells.",
     ["util.py", "computegrid.py", "config.py"], [("squad_uarea/pquad_uarea", "util.py")], ["areas"])
prop("N03", "Common-edge detection decides exactly by relative corner distance",
     "Two tiles are reported as sharing an edge if and only if all points of that edge coincide within the configured fraction of the mean tile diagonal.",
     ["inputs"], "for every pair of tiles and tolerance", "Tests use exactly matching tiles.",
     ["matchedges.py", "config.py"], [("matchedges", "matchedges.py")], ["edges returned or error"])
prop("N04", "The metadata parser accepts the MITgcm grammar and nothing else",
     "Every well-formed metadata text is parsed to its values and every ill-formed one is rejected with an error that names the line.",
     ["inputs"], "for every text", "There is no test of the parser.",
     ["mds.py"], [("parsemeta, strip_comments, parse1", "mds.py")], ["dictionary or ParseError"])
prop("N05", "Numerical results are the same on every machine and library build",
     "The same inputs give bitwise identical grids on every processor and every build of the numeric libraries.",
     ["configurations"], "for every supported machine and library version", "Tests run on one machine.",
     ["util.py", "computegrid.py"], [("numpy and pyproj arithmetic", "util.py")], ["grid values"])
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
