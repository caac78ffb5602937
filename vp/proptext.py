NOTES = "Every check compiles /repo's current sources (a copy with the harness module appended; dependencies that are not installed are replaced by the stand-ins in shims/) to LLVM IR, executes the harness entry symbolically, and puts every branch and assertion to an SMT solver."
NOT_APPLICABLE = {}
TEXT = {}
def T(pid, title, statement, over, all, why, files, mech, **k):
    assert len(title) <= 80, title
    TEXT[pid] = dict(title=title, statement=statement, over=over, all=all, why=why, files=files, mech=mech, **k)

T("C01", "Reading a dataset: every entry is read by exactly one rank, in file order",
  "However many input files there are, however many entries they hold and however many processes read them, the regions assigned to the processes are disjoint and together cover every entry of every file exactly once. Regions lie inside their file, are not empty, and follow each other in the order of files and offsets from the first process to the last. No process is assigned anything that does not exist.",
  ["inputs", "configurations"], "all numbers of files, entries per file and ranks",
  "Tests sample a few sizes; the split depends on remainders of the totals by the ranks and on empty files, which only some combinations have.",
  ["src/io/file_distribution.rs"], [("distribution of input files over ranks", "src/io/file_distribution.rs")])
T("C02", "Writing output: every process's entries are written exactly once",
  "However the entries are spread over the processes and however many output files are wanted, each process writes all of its entries exactly once, into regions that do not overlap those of other processes. Offsets within a file follow each other without gaps from zero, in the order of the processes. No more than the wanted files are used, they are filled in order, and none stays empty when there are enough entries.",
  ["inputs", "configurations"], "all numbers of ranks, entries per rank (zero included) and desired files",
  "Tests sample a few sizes; errors sit at ranks without data, at more files than entries and at remainders.",
  ["src/io/file_distribution.rs"], [("distribution of ranks' data over output files", "src/io/file_distribution.rs")])
T("C03", "Per-rank data containers keep each rank's data apart and in rank order",
  "The container that holds data per process returns for each process exactly what was stored for it, after any sequence of insertions, appends, removals, replacements and drains. Iterations visit every process that has data exactly once, in ascending order of the processes, and name the right one; draining yields everything once and leaves nothing. Containers that start out for a given number of processes have an entry for each (or each other) process, and the size is the sum over all.",
  ["histories", "inputs"], "all sequences of operations, ranks and values within the bounds",
  "The container is shared by all communication; a test uses it in one order with one set of ranks.",
  ["src/communication/data_by_rank.rs"], [("storage, iteration and draining per rank", "src/communication/data_by_rank.rs")])
T("C04", "Exchanging data: everyone receives exactly what the others sent, in any order",
  "When all processes exchange data, each process receives from each other process exactly the elements that process sent to it, unchanged and in order, including when there are none, whatever the order in which messages and completions arrive. Each process sends exactly one message to every other process and none to itself, and all sends are complete before the exchange ends. Several exchanges one after another do not mix.",
  ["schedules", "inputs", "histories"], "all message contents and lengths, arrival orders and completion orders within the bounds",
  "Real runs show one arrival order; tests run on a single rank.",
  ["src/communication/exchange_communicator.rs", "src/communication/data_by_rank.rs", "src/communication/mpi_world.rs", "src/communication/sized_communicator.rs"],
  [("sends, receives and waiting of the exchange", "src/communication/exchange_communicator.rs"), ("messages to single ranks", "src/communication/mpi_world.rs")])
T("C05", "Exchanging in chunks: nothing is lost and all processes agree on the rounds",
  "Data that is exchanged in pieces of limited size is split such that no piece exceeds the limit, the pieces are the data in order, and all of the data is in some piece. Every process runs the same number of rounds: the number that the process with the most data needs, no more. A process with less data takes part in the remaining rounds with empty pieces.",
  ["inputs", "configurations"], "all amounts of data per rank and all chunk sizes within the bounds",
  "A process that runs one round less leaves the others waiting forever, only for particular sizes relative to the limit.",
  ["src/communication/exchange_communicator.rs", "src/communication/mod.rs"], [("number of chunks and splitting", "src/communication/exchange_communicator.rs")])
T("C06", "Collective operations combine the values of all processes",
  "Gathering yields one value per process, or all elements of all processes, in the order of the processes. Sums, minima and maxima are those over all processes, and agreement is reported exactly when all processes hold the same value. A message goes to the process that was named, under a tag that every MPI implementation accepts, and receiving returns what arrived.",
  ["inputs", "schedules"], "all values on all ranks, all counts per rank",
  "Tests run on one rank, where every collective is the identity.",
  ["src/communication/mpi_world.rs", "src/communication/sized_communicator.rs", "src/communication/mod.rs"], [("collectives", "src/communication/mpi_world.rs")])
T("C07", "Values arrive over the wire as they were sent",
  "Every type that is sent as it lies in memory arrives with all of its meaning: an optional value, data tagged with the entity it belongs to, curve keys, extents, and the photon rates with the cell, direction and periodicity they are for. Absent optional values arrive as absent.",
  ["inputs"], "all values of the message types",
  "The description of the memory layout that MPI uses is written by hand for some of the types; a wrong offset or a forgotten field shows only for values where it matters, between two processes.",
  ["src/communication/communicated_option.rs", "src/communication/identified.rs", "src/peano_hilbert.rs", "src/extent.rs", "src/sweep/task.rs", "src/sweep/direction/mod.rs"],
  [("wire representation of optional values", "src/communication/communicated_option.rs"), ("wire representation of identified data", "src/communication/identified.rs")])
T("C08", "Space filling curve keys order cells along a connected curve",
  "Different cells of the finest grid have different keys, cells with consecutive keys are neighbours, and every cell of a coarser grid is one contiguous range of keys, in two and in three dimensions. The corners of the box map to the corners of the grid. Keys lie within the range of keys that the domain decomposition splits.",
  ["inputs"], "all pairs of cells within the windows of the bounds, all boxes",
  "There are 2^126 cells; a test compares a handful. An error in one of the table's states shows only along some paths of octants.",
  ["src/peano_hilbert.rs"], [("state machine of the curve", "src/peano_hilbert.rs")])
T("C09", "Extents enclose exactly what they are made of",
  "The extent of a set of points contains every point and is not larger than needed, its center is in the middle of its sides, and no points have no extent. Its side lengths and its largest side are those of its corners. The enlarged extent for periodic images has the same center and contains the images of every point inside of the original.",
  ["inputs"], "all points and extents within the bounds",
  "Which coordinate is the smallest in which dimension has many orders; tests use one.",
  ["src/extent.rs", "src/voronoi/math/traits.rs"], [("construction and measures of extents", "src/extent.rs")])
T("C10", "Determinants and their signs are right, also where rounding would decide",
  "Determinants of three, four and five rows are the determinants. The reported sign of a determinant is the sign of the exact value: positive, negative, or zero for singular matrices, also when the value computed in floating point numbers is too close to zero to be trusted. Signs multiply like numbers, and a sign refused as uncertain really is within the tolerance.",
  ["inputs"], "all matrices within the bounds",
  "All geometric predicates of the grid construction rest on them; a wrong sign in degenerate positions corrupts the grid for rare inputs only.",
  ["src/voronoi/math/utils.rs", "src/voronoi/math/precision_types.rs", "src/voronoi/math/traits.rs"], [("determinants and signs", "src/voronoi/math/utils.rs"), ("exact arithmetic", "src/voronoi/math/precision_types.rs")])
T("C11", "Linear systems are solved, and only singular ones are refused",
  "The solution returned for a system of two or three linear equations satisfies every equation, whatever the positions of zeros among the coefficients. The checked variant refuses a system exactly when it is singular, and never returns a solution for a singular one.",
  ["inputs"], "all systems within the bounds",
  "Pivoting takes a different branch for each pattern of zeros and sizes; tests take two or three of them.",
  ["src/voronoi/math/utils.rs"], [("elimination with pivoting", "src/voronoi/math/utils.rs")])
T("C12", "Indexed storage finds what was inserted under the id that was returned",
  "An id that was returned by an insertion finds the value inserted under it until that value is removed, and never another one, through any sequence of insertions, changes and removals. Iterations visit every stored value exactly once under its own id, and the length is the number of stored values.",
  ["histories"], "all sequences of operations within the bounds",
  "Reuse of removed slots shows only in particular orders of insertions and removals.",
  ["src/voronoi/indexed_arena.rs"], [("arena and vector with typed ids", "src/voronoi/indexed_arena.rs")])
T("C13", "Random rotations of the directions are rotations",
  "Whatever numbers the random generator yields, the matrix that the directions are turned by preserves lengths and angles and does not mirror. Applied to a direction it gives a unit vector again.",
  ["inputs"], "every value of the random numbers",
  "A test can only draw samples and compare within a tolerance that hides small errors; the angle and axis are real numbers.",
  ["src/sweep/direction/mod.rs"], [("rotation about a random axis", "src/sweep/direction/mod.rs")])
T("C14", "Timestep levels: every cell gets a step it can take, and rounds nest",
  "A cell that wants a step of some length gets the longest of the currently allowed steps that is not longer, or the shortest step there is if all are longer. The step of every level is half that of the level before, and within a round the steps of each level follow each other without gap or overlap and add up to the length of the round. The first rounds start with the shortest step and allow one longer step after the other such that every round starts at a multiple of its length, until all rounds take the largest step.",
  ["inputs", "configurations"], "all desired steps, all numbers of levels and rounds within the bounds",
  "The level is a rounded logarithm and the rounds follow the bits of a counter; errors sit at exact powers of two, at the first and last level and at particular rounds.",
  ["src/sweep/timestep_state.rs", "src/sweep/timestep_level.rs"], [("levels from desired steps and rounds", "src/sweep/timestep_state.rs")])
T("C15", "Cells by timestep level: lookups, changes and iterations see the right cells",
  "The list that holds the cells of a process by timestep level returns for every entity the cell and the level stored for it, through any sequence of changes of levels. Iterating over the active cells at a level visits exactly the cells at this level or above, each once; iterating over one level visits those of that level. Changing a level keeps the cell and affects no other.",
  ["histories", "inputs"], "all assignments of levels to cells and all sequences of operations within the bounds",
  "Cells move between lists when their level changes; a stale index shows only after particular sequences.",
  ["src/sweep/active_list.rs"], [("storage of cells by level", "src/sweep/active_list.rs")])
T("C16", "A sweep solves every active cell once per direction and comes to an end",
  "In a sweep every active cell is solved exactly once for every direction, after all of its active upwind neighbours, on whatever process these are and in whatever order messages arrive. One message is sent for each face to an active cell on another process per direction, and none else; the sweep ends when everything is solved and sent, and does not wait for anything that will not come. Both processes at a face agree about which cells wait for and which send messages.",
  ["schedules", "inputs", "configurations"], "all levels, grids, directions, message orders and completion orders within the bounds",
  "A wrong count of upwind neighbours is a deadlock or a cell that is solved too early, for particular levels on the two sides of a face and for particular arrival orders only.",
  ["src/sweep/mod.rs", "src/sweep/task.rs", "src/sweep/count_by_dir.rs", "src/sweep/communicator.rs", "src/sweep/grid/cell.rs"], [("sweep loop, counting of dependencies and messages", "src/sweep/mod.rs")])
T("C17", "A sweep loses and invents no radiation",
  "What a cell gives to its downwind neighbours in a direction is all that comes out of it, shared out by the areas they show to the direction, and it arrives at the neighbours unchanged, on this process or on another, once. What enters a cell is what its sources emit into the direction plus what all upwind neighbours gave last, also if some of these did not take part in this sweep. What crosses the boundary of the box leaves it, or comes in on the other side if the box is periodic.",
  ["inputs", "histories", "configurations"], "all sources, rates, states left by earlier sweeps, levels, grids and directions within the bounds",
  "The sum over neighbours is kept by differences between sweeps at different levels; a difference applied twice or not at all shows only over several sweeps with particular levels.",
  ["src/sweep/mod.rs", "src/sweep/site.rs", "src/sweep/grid/cell.rs"], [("solving a cell and handing on its rates", "src/sweep/mod.rs")])
T("C18", "Every cell is advanced over exactly the time that passes",
  "In every round, each cell that takes part is advanced by the length of its level's step, and no other cell is. A cell only changes to a level whose steps are in line with the rounds done so far, such that no time is skipped or done twice. Neighbours on other processes know the level of a cell before the next sweep.",
  ["histories", "inputs", "configurations"], "all rounds, levels and desired steps within the bounds",
  "A cell that changes its level at the wrong round is advanced too long or too short; only some sequences of desired steps lead there.",
  ["src/sweep/mod.rs", "src/sweep/timestep_state.rs", "src/sweep/active_list.rs"], [("updates of chemistry and timestep levels", "src/sweep/mod.rs")])
T("C19", "Directions are unit vectors around the sphere, and turning them loses nothing",
  "Each supported set of directions has the number of directions that was asked for, of length one, all different and without a preferred side; other numbers are refused. Given directions are normalised and keep their order. When the directions are turned, every rate that was kept per direction moves to a new direction such that the sum over all directions stays the same, and directions that are not turned keep theirs; counters per direction start at what was asked for each direction and count down one at a time.",
  ["inputs", "configurations"], "all tables, all explicitly given directions, all rotations and rates within the bounds",
  "The tables have up to hundreds of entries of 15 digits, of which a test looks at none; the assignment of old to new directions depends on the angles.",
  ["src/sweep/direction/mod.rs", "src/sweep/direction/healpix.rs", "src/sweep/count_by_dir.rs"], [("sets of directions and turning", "src/sweep/direction/mod.rs"), ("tables", "src/sweep/direction/healpix.rs"), ("counters", "src/sweep/count_by_dir.rs")])
T("C20", "Messages of a sweep are sent once and their memory outlives them",
  "Every rate change that is handed to the communicator of a sweep is sent to the process it is for exactly once, in order, whenever that becomes possible, whatever the order in which earlier messages complete. The memory of a message is neither changed nor given back before the message is complete. Everything that other processes sent is received once, unchanged.",
  ["schedules", "histories"], "all message contents and completion orders within the bounds",
  "A buffer that is reused too early corrupts a message only if the network happens to be slow.",
  ["src/sweep/communicator.rs"], [("buffers and pending messages", "src/sweep/communicator.rs")])
T("C21", "Absorption: what does not leave a cell ionizes and heats its gas",
  "What leaves a cell is between zero and what comes in, less if there is more neutral gas in the way, and all of it if there is none; rates below the threshold are dropped and no others. The number of atoms ionized in a step is the number of photons that come in and do not leave, each of which heats the gas by the energy above the ionization energy. Densities of ionized and neutral atoms and electrons are those of the ionized fraction, and reaction and cooling rates are positive at all temperatures.",
  ["inputs"], "all densities, sizes, ionized fractions, temperatures and rates within the bounds",
  "Transport and chemistry each compute the absorbed part on their own; tests compare final profiles within percents.",
  ["src/chemistry/hydrogen_only/mod.rs"], [("outgoing rate and photoionization", "src/chemistry/hydrogen_only/mod.rs")])
T("C22", "Chemistry steps: no change too large, whole steps only, values stay physical",
  "Whatever changes the rate equations ask for, temperature and ionized fraction only change by parts up to the allowed relative change per step, and steps with larger changes are undone and divided until they fit. The parts that are done add up to the whole step. The ionized fraction stays strictly between zero and one, the temperature positive, and neither falls below its initial value if cooling is prevented; the reported time scale is the step that would reach the allowed change.",
  ["inputs", "histories"], "all initial states and all changes asked for within the bounds",
  "Recursion, undoing and bounds interact only if the change is too large in one of two quantities, at a particular depth.",
  ["src/chemistry/hydrogen_only/mod.rs", "src/chemistry/timescale.rs"], [("adaptive steps", "src/chemistry/hydrogen_only/mod.rs")])
T("C23", "The periodic box: positions wrap by whole boxes, distances are the shortest",
  "Wrapping a position moves it by whole side lengths of the box until it is inside, and leaves a position inside the box where it is. The periodic distance between two positions is the shortest distance between any of their images, and the same in both directions. The images of a position that are listed for the surroundings of the box are the shifts by whole side lengths in every combination of directions, each once.",
  ["inputs"], "all boxes and positions within the bounds",
  "Wrapping and distances branch on each side of the box in each dimension; tests use the unit box and a few positions.",
  ["src/simulation_box.rs"], [("periodic wrapping, distances and images", "src/simulation_box.rs")])
T("C24", "The particle tree holds every particle once and searches miss none",
  "Every particle that is put into the tree is in exactly one leaf, whose extent contains it, whatever the positions, and the tree is neither deeper nor its leaves fuller than configured. A search around a point finds every particle within the radius, also across the boundary of the periodic box, each once, and none that is farther away. Every node covers the octant of the node above that belongs to its place.",
  ["inputs", "configurations"], "all positions, search centres and radii within the bounds",
  "Particles on the boundary of octants, at the same place or across the box boundary are rare in tests with random positions.",
  ["src/quadtree/mod.rs", "src/quadtree/radius_search.rs"], [("tree construction", "src/quadtree/mod.rs"), ("periodic search", "src/quadtree/radius_search.rs")])
T("C25", "Domain decomposition gives every particle one owner and balances the load",
  "However the particles are distributed along the space filling curve, every particle is owned by exactly one existing process, particles are owned in the order of the curve, and the loads that are reported are the numbers of particles each process owns. If the particles are far enough apart on the curve, no process gets more particles than its share allows, up to one. All processes count the particles of all others and come to the same decomposition.",
  ["inputs", "configurations"], "all keys of the particles within the bounds",
  "The cuts come from a binary search whose end conditions depend on ties and gaps between keys; tests use evenly spaced keys.",
  ["src/domain/decomposition.rs", "src/domain/key.rs", "src/peano_hilbert.rs"], [("search for cuts and ownership", "src/domain/decomposition.rs")])
T("C26", "Particles move to the process that owns them, whole and once",
  "A particle that another process owns is sent there, with all of its components, and removed here; all other particles stay, and what arrives becomes a particle with the components that were sent. Ids name one particle each across all processes, and the map between ids and particles and the tree hold exactly the particles that are on this process. A process that has a particle within a search radius is asked for it, whether or not other processes have any particles.",
  ["inputs", "histories", "configurations"], "all cuts of the curve, extents and component values within the bounds",
  "Lists of components are sent separately and matched by their order; processes without particles appear only in strongly clustered inputs.",
  ["src/domain/mod.rs", "src/domain/decomposition.rs", "src/domain/exchange_data_plugin.rs"], [("exchange of particles", "src/domain/exchange_data_plugin.rs"), ("target ranks, ids and extents", "src/domain/mod.rs")])
T("C27", "Geometric tests of triangles and tetrahedra give the true answer",
  "A point is reported inside a triangle or tetrahedron, or inside the circle or sphere through its corners, exactly when it is, whatever the orientation of the corners, as long as it is not on the boundary. The centre that is computed for the circle or sphere has the same distance from all corners, and the triangle or tetrahedron that everything starts from contains all points of the extent it is made for. Intersections with lines, closest points, distances and areas are those of the shape.",
  ["inputs"], "all points and corners within the bounds",
  "The answers are signs of determinants of the coordinates; a wrong sign or a swapped corner shows only in particular positions and orientations.",
  ["src/voronoi/primitives/triangle.rs", "src/voronoi/primitives/tetrahedron.rs", "src/voronoi/math/utils.rs"], [("triangles", "src/voronoi/primitives/triangle.rs"), ("tetrahedra", "src/voronoi/primitives/tetrahedron.rs")])
T("C28", "Inserting points yields a Delaunay triangulation of all points",
  "After every insertion the triangles or tetrahedra cover everything exactly once, all with the same orientation, and no point lies inside the circle or sphere through the corners of one of them, also in boxes with sides of different lengths. Neighbours know each other across the face they share, only the outermost faces have one side, and all points are there where they were inserted. All triangles or tetrahedra at a new point are reported as changed.",
  ["inputs", "histories"], "all positions of the last point within the bounds, after fixed insertions",
  "Which flips an insertion triggers depends on the position; a flip that is missed or done wrong shows for some positions only, and a wrong triangulation is still a triangulation.",
  ["src/voronoi/delaunay/mod.rs", "src/voronoi/delaunay/dimension.rs", "src/voronoi/delaunay/impl_2d.rs", "src/voronoi/delaunay/impl_3d.rs", "src/voronoi/delaunay/point_location.rs", "src/dimension.rs", "src/voronoi/primitives/triangle.rs", "src/voronoi/primitives/tetrahedron.rs"],
  [("insertion and flips", "src/voronoi/delaunay/mod.rs"), ("search for the triangle or tetrahedron at a point", "src/voronoi/delaunay/point_location.rs")])
T("C29", "Cells of the grid: closed, with faces that both sides agree about",
  "Every point has one cell, which contains exactly what is closer to it than to any other point. Two neighbours have one face in common, with the same area for both, perpendicular to the line between them; the faces of a cell that is not cut off by the boundary close it, and its volume and size are those of the enclosed region. A cell counts as infinite exactly when it has a face to the boundary, and corners and faces around a cell follow each other in a ring.",
  ["inputs"], "all positions of one point among fixed ones, all queries along lines, all orders of items around a ring within the bounds",
  "Radiation is handed over by areas and normals of faces: if two cells disagree about a face, photons are lost, and which faces there are depends on all positions.",
  ["src/voronoi/cell.rs", "src/voronoi/utils.rs", "src/voronoi/triangulation_data.rs", "src/voronoi/primitives/polygon3d.rs"],
  [("cells, faces and volumes", "src/voronoi/cell.rs"), ("arrangement in a ring", "src/voronoi/utils.rs"), ("corners and neighbours from the triangulation", "src/voronoi/triangulation_data.rs")])
T("C30", "Files: what is written is read back, whole, in order and in the same units",
  "Whatever the numbers of processes, files and entries, a snapshot has one row for every particle, written once, and reading it with any number of processes, at once or in pieces of any size, gives the same values in the same order. Values are converted by the factor stored with them and refused if their units are not those of the quantity; particles get the values of one row. Processes write one after the other, the one that creates the files first, and snapshots are due at the first time and after every interval.",
  ["inputs", "configurations", "histories"], "all values, factors, times and numbers of entries within the bounds",
  "Files, processes and pieces divide the entries in different ways; entries are lost or repeated only where the divisions meet in particular ways, and tests use a few.",
  ["src/io/input/mod.rs", "src/io/output/mod.rs", "src/io/output/timer.rs", "src/io/unit_reader.rs", "src/io/file_distribution.rs"],
  [("reading", "src/io/input/mod.rs"), ("writing and taking turns", "src/io/output/mod.rs"), ("output times", "src/io/output/timer.rs")])
T("C31", "Sources: every source's luminosity goes to one cell, the nearest",
  "Whichever processes know of them, all sources are known to all processes, and the rate of each is added to exactly one cell: the nearest of the process that owns its position. Cells keep what they had and what other sources give them. The total luminosity that is reported is that of all sources of all processes.",
  ["inputs", "configurations"], "all rates and positions of cells within the bounds",
  "A source that is counted twice, or not at all, changes only the amount of radiation; it shows only with several processes and sources in particular places.",
  ["src/source_systems.rs"], [("assignment of sources to cells", "src/source_systems.rs")])
T("C32", "Cosmology: times, scale factors and units are converted consistently",
  "The time between two scale factors is positive if the second is larger, the same back and forth, and adds up; the scale factor that is found for a time that has passed is the one after that time, and redshifts belong to their scale factors. Comoving units are converted by the powers of the scale factor and of little h that they have. Universes that are not flat, for which the formulas do not hold, are refused.",
  ["inputs"], "all scale factors, times, powers and cosmological parameters within the bounds",
  "The formulas are tested for one set of parameters; a wrong power or sign cancels there or is too small to notice.",
  ["src/cosmology.rs", "src/time_spec.rs", "src/units/dimension.rs"], [("times and scale factors", "src/cosmology.rs"), ("units", "src/units/dimension.rs")])
T("C33", "Cartesian grids: cubes that fill the box, with the right neighbours",
  "A box whose sides are multiples of the cell size, up to rounding, is filled by cubes of that size, each on one process. Every cell has six faces along the axes, and behind each of them is the cell next to it, across the boundary with the wrap of the side that was crossed if the box is periodic, and the boundary otherwise. A process knows its own cells and exactly those of others that are next to them, under ids that all processes agree about.",
  ["inputs", "configurations"], "all cell sizes and sides within the bounds",
  "Cells at edges of the box and of slices, grids that are one cell wide, and sides that are multiples only up to rounding are special cases; tests use one grid.",
  ["src/sweep/grid/cartesian.rs"], [("cells and neighbours", "src/sweep/grid/cartesian.rs")])
T("C34", "Grids across processes: all points that matter are imported, once",
  "After the search for points of other processes and for periodic images, no point of any process lies inside the sphere through the corners of a tetrahedron at a point of this process, whatever radius the search starts with and however long other processes take. A search asks every process that has particles within its radius, which answers with exactly the particles or images within it that it has not sent before, at the position of the image; own particles are found only across the boundary. Imported points are known as what they are: remote, periodic or both.",
  ["inputs", "schedules", "configurations"], "all initial radii, positions and search radii within the bounds",
  "A point that is missed gives a grid that is wrong only near the border between processes and still looks like a grid; which searches are made depends on all positions.",
  ["src/voronoi/constructor/halo_iteration.rs", "src/voronoi/constructor/halo_cache.rs", "src/voronoi/constructor/parallel/mod.rs", "src/voronoi/constructor/parallel/mpi_types.rs", "src/voronoi/constructor/mod.rs"],
  [("iterated search", "src/voronoi/constructor/halo_iteration.rs"), ("search across processes", "src/voronoi/constructor/parallel/mod.rs")])
T("C35", "Grids read from files: every connection gives both cells the same face",
  "Every valid connection of a cell in the file gives it one face with the area of the connection in physical units and a normal that points from the first to the second cell, and behind it is the other cell, on whichever process it is, or the boundary if it lies across the box. Cells get volumes and sizes from masses and densities and no other faces, and exactly the neighbours on other processes are known as such, once. Processes answer each other's questions about their cells correctly, and all take part whenever one of them has questions.",
  ["inputs", "configurations"], "all kinds of connections, areas and normals within the bounds",
  "A face that only one side has, or with the wrong sign, loses or invents photons; whether it does depends on which processes own the two cells and on the kind of the connection.",
  ["src/arepo_postprocess/read_grid/mod.rs", "src/arepo_postprocess/read_grid/id_cache.rs"], [("connections and faces", "src/arepo_postprocess/read_grid/mod.rs"), ("questions about cells", "src/arepo_postprocess/read_grid/id_cache.rs")])
T("C36", "Snapshots: units are converted and stars radiate by age, mass and metallicity",
  "Values of a snapshot are converted from the units stored with them, comoving or not, to those of the program, and refused if that needs a cosmology that is not given. Every star of the snapshot, and no wind particle, is one source at its position, on one process, whose rate is its mass times the rate for its age and metallicity times the fraction that escapes. That rate is interpolated between the surrounding entries of the table and stays that of the last entry beyond its ends.",
  ["inputs", "configurations"], "all factors, ages, metallicities and masses within the bounds",
  "Wrong powers and intervals of the table give plausible luminosities; the tests look up three points.",
  ["src/arepo_postprocess/unit_reader.rs", "src/arepo_postprocess/bpass.rs", "src/arepo_postprocess/sources.rs"], [("units", "src/arepo_postprocess/unit_reader.rs"), ("table of rates", "src/arepo_postprocess/bpass.rs"), ("stars", "src/arepo_postprocess/sources.rs")])
