# The text of every property; `run.py manifest` writes properties.jsonl and MANIFEST.json from it.
M = {}


def D(pid, title, statement, over, quant, why, files, mech, state, observe, technique, note, bounds_q, bounds_t, assumptions=(), hook=None):
    M[pid] = dict(title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, state=state,
                  observe=observe, technique=technique, note=note, quick=bounds_q, thorough=bounds_t,
                  assumptions=list(assumptions), hook=hook)


T = "app/tenncor/"
R = "app/rocnnet/"

D("P01", "Shape algebra is exact for every shape, coordinate and index",
  "Rank, element count, definedness, compatibility, merging, trimming, padding, concatenation and cutting of tensor shapes give the results of plain list arithmetic for every shape, including undefined and partially defined ones. "
  "Turning a coordinate into a flat index and back are inverse bijections between the box of coordinates and the range of indices, never touch memory outside the shape, and refuse coordinates that lie outside. "
  "Merging or guessing a shape never yields one that contradicts its inputs.",
  ["inputs"], "every shape up to a rank and extent bound (zero extents included), every pair of them, every coordinate and index of each",
  "The tests draw a few random shapes; boundary shapes (rank 0, zero extents, trailing ones, coordinates shorter or longer than the rank) are reached by chance or never.",
  [T + "src/tensor/tensorshape.cpp", T + "include/tensor/tensorshape.hpp"],
  [("tensorshape member functions", T + "src/tensor/tensorshape.cpp")],
  [("dimensions_", "extent per dimension, 0 = unknown", T + "include/tensor/tensorshape.hpp")],
  ["return values of the tensorshape interface"],
  "exhaustive bounded enumeration of inputs on the real code against a list-arithmetic model",
  "Every shape/pair/coordinate inside the bounds is executed under ASan and UBSan; larger extents are assumed to behave alike (the code has no extent-dependent branches).",
  "ranks 0-3 with extents 0-3, all pairs of them, all coordinates and indices", "ranks 0-4, extents 0-3 (pairs: rank 0-3)")

D("P02", "Tensors keep exactly the data they were given, within their allocation",
  "After any sequence of allocation, deallocation, assignment, copy, move, shape change, slicing and serialization, a tensor reports the shape and the elements that the sequence implies, and refuses what its shape cannot hold. "
  "Copies are independent of their source, and a moved-from or deallocated tensor owns nothing. "
  "No sequence reads or writes outside an allocation, frees memory twice, frees it through another allocator or leaks it.",
  ["histories", "inputs"], "every sequence of public tensor operations up to a depth over two tensors and a small alphabet of shapes and data",
  "Unit tests apply one or two operations to randomly shaped tensors; the defects live in sequences (reallocate after copy, set shape after deallocation) and at size boundaries.",
  [T + "src/tensor/tensor.ipp", T + "include/tensor/tensor.hpp", T + "src/memory/default_alloc.cpp", T + "src/memory/iallocator.cpp", T + "src/tensor/tensor_handler.ipp"],
  [("tensor<T>", T + "src/tensor/tensor.ipp"), ("allocator bookkeeping", T + "src/memory/iallocator.cpp")],
  [("raw_data_", "element buffer", T + "include/tensor/tensor.hpp"), ("allowed_shape_ / alloc_shape_", "permitted and allocated shape", T + "include/tensor/tensor.hpp")],
  ["expose(), get(), get_shape(), is_alloc(), heap accounting"],
  "stateless model checking: all operation histories to a depth, compared step by step with a value model",
  "All histories inside the bound run on the real class under ASan/UBSan with exact heap accounting; nothing is sampled.",
  "histories of 3 operations over 2 tensors", "histories of 4 operations over 2 tensors")

D("P03", "Graph links stay symmetric and alive through every link operation",
  "At every moment a node lists another as its argument exactly when that other lists it as its audience, at the same position, whatever sequence of linking, replacing, removing, copying, moving and destroying nodes came before. "
  "When a node dies its audience is told exactly once, those that depend on it for life die with it, and no operation uses a dead node, frees one twice or throws from a destructor.",
  ["histories"], "every sequence of link, unlink, replace, copy, move and destroy operations up to a depth over a small set of nodes",
  "Tests build fixed graphs and perform one mutation each; asymmetric links and double deaths only appear after particular sequences (same node in two slots, copy after partial unlink, death during notification).",
  [T + "src/graph/react/subject.cpp", T + "src/graph/react/iobserver.cpp", T + "include/graph/react/subject.hpp", T + "include/graph/react/iobserver.hpp"],
  [("subject::attach/detach/notify", T + "src/graph/react/subject.cpp"), ("iobserver::add/remove/replace_dependency", T + "src/graph/react/iobserver.cpp")],
  [("audience_", "observers and the argument positions they use", T + "include/graph/react/subject.hpp"), ("dependencies_", "ordered arguments", T + "include/graph/react/iobserver.hpp")],
  ["audience lists, argument lists, notifications received, heap accounting"],
  "stateless model checking: all operation histories to a depth with a reference link model",
  "Complete within the bounds, on the real classes under ASan/UBSan.",
  "3 nodes, histories of 3-4 operations, all death orders", "histories one operation longer")

D("P04", "Destroying nodes in any order neither dangles, double-frees nor leaks",
  "Whatever graph is built and in whatever order its leaves and operation nodes are destroyed, copied, assigned or moved, every node whose argument is gone is gone too or reset to nothing, the survivors still evaluate to the right values, and nothing is accessed after it is freed. "
  "Once the roots of a graph are destroyed every node, including the unnamed constants made on the way, has been released exactly once.",
  ["histories", "programs"], "every small expression program over the elementary operations, every destruction order and every copy, move and assignment in between",
  "Tests delete graphs in one hand-picked order; ownership errors show only for particular combinations of sharing, constants, gradients and order of destruction.",
  [T + "src/graph/inode.ipp", T + "src/graph/varptr.ipp", T + "src/graph/connector/iconnector.ipp", T + "src/graph/connector/immutable/base_immutable.ipp", T + "src/graph/leaf/constant.ipp", T + "src/graph/connector/immutable/generator.ipp", T + "src/graph/connector/immutable/immutable.ipp", T + "src/graph/connector/immutable/shape_dep.ipp", T + "src/graph/react/iobserver.cpp"],
  [("death_on_broken / death_on_noparent", T + "src/graph/connector/iconnector.ipp, " + T + "src/graph/leaf/constant.ipp"), ("varptr reset on death", T + "src/graph/varptr.ipp")],
  [("audience_/dependencies_", "who keeps whom", T + "include/graph/react/subject.hpp")],
  ["node destructor counts, values of survivors, varptr contents, heap accounting"],
  "stateless model checking: all programs x all destruction orders on the real code",
  "Complete within the bounds under ASan/UBSan with exact heap accounting.",
  "expression programs of up to 3 operations over 3 leaves, all destruction orders; constants released for every operation; 4-step histories of up to 2 generators and 5 users each; 3 clones, moves and assignments of 2 of 7 operation nodes of 3 classes with 4 sets of consumers, leaves written before, between or after, each node deleted at the end", "one more operation per program")

D("P05", "An evaluated node always equals its formula over the current leaf values",
  "After any interleaving of building nodes, writing leaves, evaluating nodes, pausing and resuming updates and copying or deleting nodes, asking a node for its value gives exactly what its expression yields over the values the leaves hold now. "
  "This holds for diamonds, shared arguments, chains of differing depth, whole tensors handed to placeholders, generators and nodes computed from shapes alike; a node whose own shape would have to change refuses. "
  "While a graph is frozen its nodes keep showing what they showed when it was frozen, and thawing brings them up to date.",
  ["histories", "programs"], "every graph-building program up to a size and every sequence of writes, evaluations and mutations on it up to a depth",
  "Tests write once and read once; staleness needs particular sequences (write, write back, evaluate a sibling, delete while an update is pending).",
  [T + "src/graph/connector/iconnector.ipp", T + "include/graph/connector/iconnector.hpp", T + "src/graph/connector/immutable/base_immutable.ipp", T + "src/graph/react/subject.cpp", T + "src/graph/leaf/placeholder.ipp", T + "src/graph/leaf/variable.ipp", T + "src/graph/connector/immutable/generator.ipp", T + "src/graph/connector/immutable/shape_dep.ipp"],
  [("graph_manager update queue", T + "src/graph/connector/iconnector.ipp"), ("base_immutable::update", T + "src/graph/connector/immutable/base_immutable.ipp")],
  [("updates_ / update_map_", "pending updates by depth", T + "include/graph/connector/iconnector.hpp"), ("data_", "cached forward value", T + "include/graph/connector/immutable/base_immutable.hpp")],
  ["eval() and expose() of every live node"],
  "stateless model checking: all build/write/evaluate histories to a depth against an interpreter of the expressions",
  "Complete within the bounds on the real code; the interpreter recomputes every node from leaf values after each step.",
  "graphs of up to 4 operations, histories of 5-6 steps; 5 frozen graphs x 4 steps; 12 kinds of consumer in pairs x 7 tensors handed over, twice", "one more step; consumers in threes")

D("P06", "Elementary operations are exact, element by element, for every operand",
  "Every unary, binary, comparison, clipping and axial operation yields, element by element, the value of its scalar function over the current operand values, whether its operands are constants, scalars, leaves or other operations, and however often they are rewritten afterwards. "
  "The result has the operands' shape, one-element operands broadcast, and operands whose shapes do not fit, absent operands and divisions by a constant zero are refused rather than computed. "
  "No operand combination reads or writes outside a buffer.",
  ["inputs"], "every elementary operation over every kind of operand, operand shape combination, scalar and value pattern in the bounds",
  "Tests use one random shape per operation; the shortcuts for constants, the broadcast cases, square shapes and mismatched axes each behave differently and are mostly untried.",
  [T + "src/graph/operations/elementary.ipp", T + "include/graph/operations/operations.hpp", T + "src/graph/operations/operation_utils.ipp"],
  [("elementary operations", T + "src/graph/operations/elementary.ipp")], [("data_", "forward value", T + "include/graph/connector/immutable/base_immutable.hpp")],
  ["eval(), expose(), get_shape() of the operation node"],
  "exhaustive bounded enumeration of operations x operands x write histories on the real code against scalar formulas",
  "Every combination in the bounds is executed under ASan/UBSan; values are drawn from three fixed patterns covering sign, zero, one and fractions.",
  "24 unary forms, 8 binary, 4 axial (shapes to rank 4), sigmoid/tanh/softmax and compositions; 5 operand kinds; 8-19 shapes; one rewrite per operand", "all offsets of the value patterns, third data set")

D("P07", "Shape-changing operations put every element where their definition says",
  "Transposing, fitting, extending, flipping, folding (sum, max, mean, custom), arg-folding and filtering a tensor yield exactly the shape and elements of their definition for every dimension argument, including dimensions of extent one and beyond the rank, and follow every later change of the operand. "
  "Filters and dimensions that do not fit and absent operands are refused, and no element outside the operands is ever read.",
  ["inputs"], "every shape-changing operation over every shape, dimension argument, operand kind and value pattern in the bounds, and every pair of them in sequence",
  "Tests use random shapes of rank two or more and one valid dimension; the first, last, middle and missing dimensions take different code paths.",
  [T + "src/graph/operations/transform.ipp", T + "include/graph/operations/operations.hpp", T + "src/graph/connector/immutable/shape_dep.ipp"],
  [("transform operations", T + "src/graph/operations/transform.ipp")], [("data_", "forward value", T + "include/graph/connector/immutable/base_immutable.hpp")],
  ["eval() and get_shape() of the operation node"],
  "exhaustive bounded enumeration of operations x shapes x dimensions x write histories on the real code against array formulas",
  "Every combination in the bounds is executed under ASan/UBSan.",
  "ranks 1-4, extents up to 4, all dimension arguments up to 4, 5 operand kinds, all pairs of 7 transformations", "more shapes")

D("P08", "Matrix products are exact for every size, batch and transposition",
  "The product of two matrices, vectors or batches of matrices holds, at every position, the sum of products over the shared dimension, whichever operand is given transposed, whatever kind of node it is, whether or not the same node appears twice, and after every later change of an operand. "
  "The divide-and-conquer algorithm for large sizes gives the same product as the plain one, and operands whose shapes do not fit are refused before memory is touched.",
  ["inputs"], "every pair of operand shapes in the bounds, fitting or not, with every transposition; all sizes around the splitting points of the recursive algorithm; all pairs of unit matrices",
  "Tests probe a handful of random sizes with a probabilistic check; padding, odd splits, batches and mismatched batches need particular sizes.",
  [T + "src/graph/operations/matmul.ipp"], [("matmul / strassen", T + "src/graph/operations/matmul.ipp")],
  [("data_", "forward value", T + "include/graph/connector/immutable/base_immutable.hpp")], ["eval() of the product node"],
  "exhaustive bounded enumeration of shapes, transpositions and unit matrices on the real code against the defining sum",
  "The recursion threshold is lowered to 2 by a build define so that sizes 3-9 take one to three levels of recursion; unit matrices determine the bilinear map completely for each size.",
  "17 x 17 operand shapes, sizes 1-9 cubed with 1-2 batches, unit matrices up to 5x5", "sizes 1-13 cubed, unit matrices up to 7x7",
  hook="STRASSEN_THRESHOLD")

D("P09", "Gradients equal the derivative of the node's formula",
  "Deriving a node by a variable gives, element for element of the variable, the derivative of the sum of the node's elements: for every composition of differentiable operations, matrix products with either operand transposed, layers with biases, and sums, means and norms of them. "
  "Second derivatives of element-wise formulas are right too, variables the node does not depend on have gradient zero, and gradients follow every later change of the leaves and survive being deleted and asked for again.",
  ["inputs", "programs"], "every composition of operations in the bounds, every choice of variables, and a rewrite of the leaves after building",
  "Tests compare each operation's gradient with a hand-written formula at one point; chains, shared subexpressions and products of products are not covered.",
  [T + "src/graph/operations/elementary.ipp", T + "src/graph/operations/matmul.ipp", T + "src/graph/operations/transform.ipp", T + "src/graph/connector/immutable/base_immutable.ipp", T + "src/graph/connector/immutable/immutable.ipp", T + "src/graph/connector/iconnector.ipp"],
  [("derive / backward_pass", T + "src/graph/connector/immutable/immutable.ipp"), ("jacobian_call", T + "src/graph/connector/iconnector.ipp")],
  [("gcache_", "gradient nodes by leaf", T + "include/graph/connector/immutable/base_immutable.hpp"), ("jacobians_", "pending matrix jacobians", T + "include/graph/connector/iconnector.hpp")],
  ["derive() results and their eval()"],
  "exhaustive bounded enumeration of expression programs on the real code against a Taylor-coefficient interpreter",
  "Programs are enumerated completely within the bounds; values are generic points away from singularities.",
  "24 unary forms nested twice with second derivatives; 4 x 25 x 25 x 9 binary programs; shared diamonds; all products up to 3x3x3; 1-2 layers; one-element operands broadcast; fitted arguments; arguments that do not vary", "3 layers, second derivatives of binary programs")

D("P10", "Asking for an operation never yields a node that computes something else",
  "Operations that were requested before are shared instead of built again; whatever was requested earlier, in whatever order, and whether or not it has been deleted since, the node a request returns has the value, shape and gradients that the same request has in an otherwise empty graph, and earlier nodes keep theirs. "
  "Requests differing only in a scalar, an axis, the order of operands or a flag are different requests.",
  ["histories", "programs"], "every ordered pair of requests over the same operands from an alphabet of all operations and many parameters, and chains of three",
  "Tests that build the same operation twice only see the intended sharing; a wrong match needs two particular requests in one graph.",
  [T + "src/graph/operations/operation_utils.ipp", T + "src/graph/operations/elementary.ipp", T + "src/graph/operations/transform.ipp", T + "src/graph/operations/matmul.ipp", T + "src/graph/inode.ipp"],
  [("unary_parent_search / ordered_binary_parent_search", T + "src/graph/operations/operation_utils.ipp")],
  [("audience_", "nodes built on a node", T + "include/graph/react/subject.hpp")],
  ["eval(), get_shape(), derive() of every requested node"],
  "exhaustive enumeration of request histories on the real code; differential oracle: the request in an empty graph",
  "Request names chosen by callers (compress, conditional with a function) are part of the request.",
  "all ordered pairs of about 190 requests with and without deletion, with gradients; chains of three over 60", "three operand kinds, chains over the full alphabet")

D("P11", "Copied leaves are independent, moved leaves take their consumers along",
  "A cloned or copy-assigned variable or placeholder has the source's value, shape, label, initialization state and initializer and is independent of it from then on, and the target's existing consumers show the new value. "
  "A moved one takes value, initializer and every consumer along, leaving a source that can only be destroyed or assigned to. "
  "Gradients by the leaf stay right, and nothing is freed twice, leaked or left dangling.",
  ["histories"], "every history of clone, move, both assignments, self assignment, write, deletion and new consumers over two leaves up to a depth",
  "Tests check one clone or move of one fresh leaf, without consumers that keep being used afterwards.",
  [T + "src/graph/leaf/ileaf.ipp", T + "src/graph/leaf/ivariable.ipp", T + "src/graph/leaf/variable.ipp", T + "src/graph/leaf/placeholder.ipp", T + "src/graph/inode.ipp", T + "src/graph/react/subject.cpp"],
  [("copy_helper / move_helper", T + "src/graph/leaf/ileaf.ipp"), ("subject move", T + "src/graph/react/subject.cpp")],
  [("data_, is_init_", "value and state", T + "include/graph/leaf/ileaf.hpp"), ("init_", "initializer", T + "include/graph/leaf/ivariable.hpp"), ("audience_", "consumers", T + "include/graph/react/subject.hpp")],
  ["eval(), good_status(), can_init(), get_label(), get_arguments() and eval() of consumers"],
  "stateless model checking: all operation histories to a depth against a value model",
  "All histories inside the bound run on the real classes under ASan/UBSan.",
  "histories of 4 operations over 2 leaves and up to 3 consumers", "histories of 5 operations")

D("P12", "Saved parameters come back bit for bit, and a damaged file is refused",
  "Saving leaves to a file and reading them back restores every element's bits and the shape of each initialized leaf, under the same label and position, into any leaf, and their consumers see the new value; entries of other labels in the file survive, leaves without an entry are reported in order and left as they were. "
  "A model restores all its variables or is freshly initialized. A truncated, altered or foreign file is refused or yields only entries that are complete in themselves, never touches memory outside the tensor, and a save that could not be written completely reports failure.",
  ["histories", "crash_points", "inputs"], "every history of saves, loads and writes to a depth, every truncation point, byte alteration and crafted entry, every byte count at which the file system stops taking data",
  "There are no tests of reading or writing files; damaged files and full disks need a particular byte position.",
  [T + "src/memory/tensor_io.ipp", T + "src/tensor/tensor.ipp", T + "src/graph/leaf/ileaf.ipp", "app/rocnnet/src/compounds/icompound.cpp"],
  [("write_inorder / read_inorder", T + "src/memory/tensor_io.ipp"), ("serialize / from_proto", T + "src/tensor/tensor.ipp"), ("initialize / save", "app/rocnnet/src/compounds/icompound.cpp")],
  [("node_map", "entries of the file", T + "proto/serial/tenncor.proto"), ("data_, is_init_", "value and state of a leaf", T + "include/graph/leaf/ileaf.hpp")],
  ["return values, the file's bytes, eval() and good_status() of leaves and consumers"],
  "stateless model checking of the real code: all operation histories and all fault points within bounds against a model of the file",
  "The model of a file is decided from the message format alone; every history, cut, byte change and write limit in the bounds is executed.",
  "10 shapes, 4-step histories over 2 files, all truncations of a 2-entry file, about 50 changes per byte, 27x27x13 crafted entries, every write limit up to 340 bytes, 4 networks", "5-step histories, all 256 values per byte")

D("P13", "One training step moves every variable along its gradient at the values before the step",
  "Training a model on a batch changes each of its variables by exactly the optimizer's formula, applied to that variable's gradient of the squared error at the values before the step: for plain gradient descent and for RMSprop with its running average, with processed gradients, ignored variables, changed learning rates and copied or moved optimizers. "
  "Afterwards the error and the outputs follow the new values, and optimizers without a method refuse.",
  ["histories", "inputs"], "every network, activation, batch size, optimizer, gradient processing and ignore set in the bounds, and every history of training steps and external writes",
  "The demos only report that the error shrinks; a stale average, a gradient taken after another variable moved or a missed bias shows in no test.",
  [T + "src/utils/gd_utils.cpp", "app/rocnnet/src/models/gd_net.cpp", "app/rocnnet/src/layers/fc_layer.cpp", "app/rocnnet/src/compounds/mlp.cpp", T + "src/graph/leaf/variable.ipp"],
  [("calculate / process_update", T + "src/utils/gd_utils.cpp"), ("train / setup", "app/rocnnet/src/models/gd_net.cpp"), ("freeze_status", T + "src/graph/connector/iconnector.ipp")],
  [("updates_", "pending updates", "app/rocnnet/include/models/gd_net.hpp"), ("momentums_", "running averages", T + "include/utils/gd_utils.hpp"), ("freeze_", "queueing of updates", T + "src/graph/connector/iconnector.ipp")],
  ["variables, outputs and error of the model after every step"],
  "stateless model checking: all histories to a depth over an enumerated set of models against a reference network with back propagation",
  "Every model and history in the bounds is executed on the real classes; values are fixed generic points.",
  "11 networks of 1-3 layers, batches 1-2, 2 optimizers, histories of 3 steps; 2 x 4 optimizers x 5 processings x 4 ignore sets x 3 rate changes x 4 copies", "8 optimizer settings, all activations, batches 1-3, histories of 4 steps")

D("P14", "Layers and models can be cloned, moved, assigned and deleted without affecting each other",
  "A clone or assigned copy of a layer, perceptron or trained model has the source's parameters, computes and trains like it, shares no variable with it, and neither is affected when the other is trained, rewritten or deleted. "
  "A moved one takes parameters, connected outputs and training state along, leaving a source that can be assigned to or deleted. Self assignment changes nothing, saved parameters can be restored into any copy, and nothing leaks, dangles or is freed twice.",
  ["histories"], "every history of create, clone, move, both assignments, self assignment, delete, connect, write, train and restore over two slots up to a depth",
  "There are no tests of layers or models; the demos copy nothing.",
  ["app/rocnnet/src/layers/fc_layer.cpp", "app/rocnnet/src/layers/conv_layer.cpp", "app/rocnnet/src/layers/ilayer.cpp", "app/rocnnet/src/compounds/mlp.cpp", "app/rocnnet/src/compounds/icompound.cpp", "app/rocnnet/src/models/gd_net.cpp"],
  [("copy_helper / move_helper / clean_up", "app/rocnnet/src/models/gd_net.cpp"), ("copy_helper / move_helper / clean_up", "app/rocnnet/src/layers/fc_layer.cpp"), ("copy_helper / move_helper / clean_up", "app/rocnnet/src/compounds/mlp.cpp")],
  [("weights_n_bias_", "parameters of a layer", "app/rocnnet/include/layers/fc_layer.hpp"), ("layers_", "layers of a perceptron", "app/rocnnet/include/compounds/mlp.hpp"), ("brain_, updates_, updater_", "a trained model", "app/rocnnet/include/models/gd_net.hpp")],
  ["get_variables(), outputs, trained values, liveness of outputs, and ASan"],
  "stateless model checking: all operation histories to a depth against a reference network per slot",
  "All histories inside the bound run on the real classes under ASan/UBSan.",
  "histories of 4 operations over 2 slots: 8 layer shapes, 4 pairs of perceptrons, 4 trained models (3 operations for all but one), convolution layers", "histories of 5 operations, all pairs of perceptrons")

D("P15", "A q-learning agent remembers its latest experiences and learns from them as specified",
  "A dq_net remembers every store_interval-th experience, the latest max_exp of them, and trains every train_interval-th call once it has a mini batch: on mini_batch_size distinct remembered experiences, moving the source network along the clipped gradient of the mean squared difference between the score of the action taken and reward plus discounted best score of the target network (nothing for final states), then moving the target network towards the source by the target rate. "
  "Actions are the best scored one or, with the annealed probability, a random valid one. Copies, moves, assignments and saved files carry networks, counters and memory (running averages of the optimizer start anew), and agents do not affect each other.",
  ["histories", "inputs"], "every history of storing, training, acting, copying, moving, assigning, restoring and deleting in the bounds, with every outcome of the first draws of the sampling generator",
  "The only test is a demo that needs random episodes and asserts nothing; what a full memory keeps, or what a copy forgot, shows in no run.",
  ["app/rocnnet/src/models/dq_net.cpp", "app/rocnnet/include/models/dq_net.hpp", T + "src/utils/gd_utils.cpp"],
  [("store / train / action", "app/rocnnet/src/models/dq_net.cpp"), ("variable_setup / copy_helper / move_helper", "app/rocnnet/src/models/dq_net.cpp")],
  [("experiences_", "remembered experiences", "app/rocnnet/include/models/dq_net.hpp"), ("source_qnet_, target_qnet_", "networks", "app/rocnnet/include/models/dq_net.hpp"), ("n_store_called_, n_train_called_, actions_executed_", "counters", "app/rocnnet/include/models/dq_net.hpp")],
  ["both networks' values in saved files, scores, actions, get_numtrained()"],
  "stateless model checking: all histories and sampling outcomes within bounds against a reference agent that accepts any mini batch of remembered experiences",
  "The reference does not fix how the mini batch is drawn: a step must equal the step of some subset of the remembered experiences.",
  "4 networks x 2 optimizers x 2 x 2 rates x 3 batch sizes for 3 steps; 6-call histories over 24 parameter sets; histories of 3 operations over 2 agents", "8-call histories, 4 operations over 2 agents")

D("P16", "Every consumer of a shared cache gets every latest value once, in order, and is woken for it",
  "Each consumer of a shareable_cache receives the values in the order they were added, none twice, none that had been replaced under its key before it asked, and every one that is not replaced; it waits exactly while nothing is unread, every new value or escape wakes every waiting consumer, and a consumer holding a replaced value's place goes on from there. "
  "There is no crash, deadlock, data race or use of freed memory in any interleaving, and destroying the cache frees its values.",
  ["interleavings", "histories"], "every history of additions, reads and place copies to a depth, and every interleaving of a producer and several consumers up to a preemption bound",
  "There are no tests of the cache; replacing a key under a consumer and lost wake ups need particular histories or schedules.",
  [T + "include/thread/shareable_cache.hpp", T + "src/thread/shareable_cache.ipp"],
  [("get_latest / add_latest / escape_wait", T + "src/thread/shareable_cache.ipp"), ("cache_list", T + "src/thread/shareable_cache.ipp")],
  [("content_", "linked list of latest values", T + "include/thread/shareable_cache.hpp"), ("umap_", "latest node per key", T + "include/thread/shareable_cache.hpp"), ("mutex_, cond_", "synchronization", T + "include/thread/shareable_cache.hpp")],
  ["returned values with the scheduler's time of call and return; blocked threads; live memory"],
  "stateless model checking of the real code under a controlled scheduler, all interleavings within a preemption bound, with a happens-before race detector",
  "The scheduler replaces the thread sanitizer's runtime and interposes pthread calls; every switch at a synchronization operation is a choice of the explorer. Memory order of atomics is sequentially consistent, races of plain accesses are reported.",
  "histories of 7 calls of 2 consumers over 3 keys; a producer of up to 4 values with 2 consumers under 1-3 preemptions; 3 waiting consumers", "8 calls, 5 values, one preemption and one spurious wake up more")

D("P17", "A stopped thread ends, an unstopped one goes on, and handles can be used at any time",
  "A stoppable_thread whose body waits for or polls its stop flag ends once stop() was called, in every interleaving, and not before; stopping concerns that thread alone, and a later thread starts unstopped. "
  "Destruction waits for the thread's end. stop() may be called before the thread begins, repeatedly, from several threads, after it ended, was joined or detached, and on a handle that is empty or was moved from, where it does nothing; moves take the thread along. Arguments reach the body as they were at the start. No deadlock, data race, use of an ended thread's memory or leak.",
  ["interleavings", "histories"], "every history of start, stop, join, detach, move, assign and delete over two handles to a depth and every interleaving with the bodies up to a preemption bound",
  "There are no tests of threads; a lost wake up needs a switch between the look at the flag and the wait.",
  [T + "include/thread/stop_flag.hpp", T + "src/thread/stop_flag.cpp", T + "include/thread/stoppable_thread.hpp", T + "src/thread/stoppable_thread.cpp"],
  [("set / wait / stop_wait / stop_throw", T + "src/thread/stop_flag.cpp"), ("constructor, moves, stop, join", T + "src/thread/stoppable_thread.cpp")],
  [("flag_", "stop request", T + "include/thread/stop_flag.hpp"), ("internal_op_, flag_", "the thread and its flag", T + "include/thread/stoppable_thread.hpp")],
  ["joinable(), ends of bodies, blocked threads, live memory"],
  "stateless model checking of the real code under a controlled scheduler, all interleavings within a preemption bound, with a happens-before race detector",
  "The scheduler replaces the thread sanitizer's runtime and interposes pthread calls; every switch at a synchronization operation or atomic access is a choice of the explorer. Sequentially consistent interleavings.",
  "4 bodies x 3-call histories under 3 preemptions and a spurious wake up; 6-call histories over 2 handles and 3 threads, 4-call ones under a preemption; 3 threads at once under 2", "one preemption and one call more")

D("P18", "The recorded graph is the graph",
  "With graph recording compiled in, to_csv() lists every link of the live graph exactly once as consumer, argument and argument position, with the nodes' current labels (or names) and, if asked for, shapes; a node has one number, and a number stands for one node. Links that were taken apart by deletion, moves, assignments or replacement do not appear, links of other element types and of pointers held by callers do not appear, and asking for one graph lists the links of that graph alone.",
  ["histories"], "every history of building, cloning, deriving, moving, assigning and deleting nodes to a depth",
  "Recording is compiled out of the test build; a stale or missing link shows only after particular histories.",
  [T + "src/edgeinfo/adjlist_record.cpp", T + "include/edgeinfo/csv_record.hpp", T + "src/edgeinfo/csv_record.cpp", T + "src/graph/react/subject.cpp", T + "src/graph/react/iobserver.cpp"],
  [("edge_capture / edge_release / node_release", T + "src/edgeinfo/adjlist_record.cpp"), ("to_csv", T + "include/edgeinfo/csv_record.hpp"), ("attach / detach", T + "src/graph/react/subject.cpp")],
  [("subj_nodes", "recorded links", T + "include/edgeinfo/adjlist_record.hpp"), ("dependencies_, audience_", "the links", T + "include/graph/react/iobserver.hpp")],
  ["lines of the csv file against get_arguments(), get_label(), get_shape(), is_same_graph() of every node"],
  "stateless model checking: all histories of graph operations to a depth, the written file compared with the graph after every step",
  "The oracle reads the links from the graph itself, whose own consistency P03 decides.",
  "4-step histories over 2 leaves, 3-step ones over 3 leaves with 5 and 10 kinds of operation", "one step more")

D("P19", "Random values are in range, repeatable by seed and never drawn twice",
  "Every random initialization, generator node and binomial sample draws fresh values from one shared generator: seeding it and repeating a history of node creation, initialization, copying and sampling gives the same values and nothing else does, so no two draws repeat each other. "
  "Uniform values lie between their bounds and reach all of them, normal and binomial ones have their mean and spread, samples are whole numbers within their trials and certain where the probability is, and stay as they are until an argument changes. "
  "Copied and moved initializers draw like their source, generators follow the shape of their node through copies, moves and deletion, and every node has an identifier of its own.",
  ["histories", "inputs"], "every history of seeding, initializing, cloning, moving, sampling and node creation to a depth, from plain seeds and from seeds that make one of the first draws extreme",
  "Tests draw once and look at the range; repeated draws of two initializations in a row look random each on its own.",
  [T + "src/tensor/tensor_handler.ipp", T + "src/utils/utils.cpp", T + "src/graph/operations/elementary.ipp", T + "src/graph/connector/immutable/generator.ipp", T + "include/graph/react/identifiable.hpp"],
  [("rand_uniform / rand_normal", T + "src/tensor/tensor_handler.ipp"), ("get_generator / seed_generator / uuid", T + "src/utils/utils.cpp"), ("binomial_sample", T + "src/graph/operations/elementary.ipp"), ("generator", T + "src/graph/connector/immutable/generator.ipp")],
  [("common_generator", "the shared random generator", T + "src/utils/utils.cpp"), ("distribution_", "bounds of an initializer", T + "include/tensor/tensor_handler.hpp")],
  ["values of variables, samples and generators; get_uid()"],
  "stateless model checking: all histories within bounds, each executed twice from the same seed and compared with itself and with the ranges",
  "Distributions are judged by moments over a fixed set of seeds with wide limits; the rest is exact for every history in the bounds.",
  "histories of 3 operations of 10 kinds from 12 seeds; 7 uniform ranges x 48 seeds; 17640 samples; generators under 4 operations", "4 operations from 20 seeds, 208 seeds, 5 operations")

D("P20", "Leaves hold exactly what they were given",
  "A variable holds what its initializer, its data source or the update functions applied to it last produced: assign, assign_add and assign_sub use the value their argument has when they are applied (for constants when they were made), element by element, and consumers see the new value once notified. "
  "A placeholder holds the last data assigned to it, in the shape its declaration and the number of elements determine; constants keep their value and a single value fills its shape. "
  "Data that does not fit, initialization without a shape or an initializer, and updates without a value are refused and leave the contents alone. Leaves are their own leaf and have gradient one by themselves and zero by others.",
  ["histories", "inputs"], "every history of initialization, updates, assignments and refusals to a depth, over complete and partial shapes",
  "Tests assign once to each leaf; what an update function reads later, repeated initialization and partial shapes are not combined.",
  [T + "include/graph/leaf/", T + "src/graph/leaf/", T + "src/tensor/tensor_handler.ipp"],
  [("variable::assign / assign_add / assign_sub / initialize", T + "src/graph/leaf/variable.ipp"), ("placeholder::operator =", T + "src/graph/leaf/placeholder.ipp"), ("constant", T + "src/graph/leaf/constant.ipp"), ("assign_func", T + "src/tensor/tensor_handler.ipp")],
  [("data_", "the leaf's tensor", T + "include/graph/leaf/ileaf.hpp"), ("is_init_", "whether it has a value", T + "include/graph/leaf/ileaf.hpp")],
  ["expose(), eval(), get_shape(), good_status(), can_init(), thrown errors and aborts"],
  "stateless model checking: all operation histories within bounds against a value model; refusals are executed in a child process",
  "An update before initialization, data larger than a constant's target, and initialization of existing storage to another shape are not specified by the library and not checked.",
  "4 operations of 5 kinds with up to 2 pending updates of 18 kinds; update functions kept across 3 copies, moves and rewrites of their variable; initialization histories of 3 operations over 7 declarations; 3 assignments of 0-8 elements", "5 and 4 operations")

D("P21", "Restricted Boltzmann machines infer and train by contrastive divergence",
  "prop_up and prop_down of a restricted Boltzmann machine give the unit probabilities of its parameters for every sample of a batch and follow writes; a reconstruction is the probability of one layer given a sample of the other, drawn again only when its input changes. "
  "One training step moves weight and biases by the difference of the data's and the chain's statistics, averaged over the batch, where the chain is some sample of as many rounds as asked for, started from the data or from the persistent chain, which is left at the chain's end; the monitored cost is the reconstruction's likelihood or the pseudo-likelihood of the same parameters and data. "
  "Clones and copies are independent of their originals, moves take the machine along with everything computed from it, and deleting a machine deletes its outputs.",
  ["histories", "inputs"], "every history of training, writing, copying, moving, assigning and deleting to a depth, over sizes, batches, kinds of chain and chain lengths, with every outcome of the sampling accepted that the parameters allow and no other",
  "The tests of this part only construct the machine; a wrong sign, a missing average or a chain from the wrong end trains to something that still looks like a model.",
  [R + "include/models/rbm.hpp", R + "src/models/rbm.cpp", R + "src/layers/fc_layer.cpp"],
  [("prop_up / prop_down", R + "src/models/rbm.cpp"), ("reconstruct_visible / reconstruct_hidden", R + "src/models/rbm.cpp"), ("train", R + "src/models/rbm.cpp"), ("clone / move / operator =", R + "src/models/rbm.cpp")],
  [("hidden_, vbias_", "the parameters", R + "include/models/rbm.hpp")],
  ["values of the parameters, of the outputs, of the persistent chain and of the cost"],
  "stateless model checking: all histories within bounds against a reference that enumerates every state the sampling chain can reach",
  "Sampling is nondeterminism resolved by the library's generator: the reference accepts any reachable sample; that every sample is taken is checked by seeds for fair units only. Cost of certain units (infinite logarithms) is not checked.",
  "1-3 units a layer, batches of 1-2, 1-3 rounds; 2 steps of training histories, 4 steps of copy histories; all certain and fair weights for 2x2 machines", "3 and 5 steps; more seeds")

D("P22", "Deep belief networks infer, pretrain layer by layer and fine tune by cross entropy",
  "The output of a deep belief network is, for every sample of a batch, the normalized exponential of its last layer over sigmoid layers with the network's current parameters. "
  "The pretraining function of a layer is one contrastive divergence step of that layer alone, on the data as the layers below it transform them now; whatever the order, it leaves every other layer as it was. "
  "The fine tuning function moves all weights and biases together one step down the gradient of the mean cross entropy between output and expected output, and the reported error is their mean squared difference. "
  "Copies are independent and complete, moves take the network along with everything computed from it, saving and loading restores the parameters.",
  ["histories", "inputs"], "every order of pretraining, fine tuning and writes of data and parameters to a depth, over several depths, widths and batches; every history of copying, moving, assigning, saving and deleting",
  "The tests of this part only construct and copy a network; training that ignores a layer or the expected output goes unnoticed.",
  [R + "include/models/db_net.hpp", R + "src/models/db_net.cpp", R + "src/models/rbm.cpp", R + "src/layers/fc_layer.cpp"],
  [("prop_up", R + "src/models/db_net.cpp"), ("pretraining_functions", R + "src/models/db_net.cpp"), ("build_finetune_functions", R + "src/models/db_net.cpp"), ("clone / move / operator =", R + "src/models/db_net.cpp"), ("save / initialize", R + "src/compounds/icompound.cpp")],
  [("layers_, log_layer_", "the layers", R + "include/models/db_net.hpp")],
  ["values of all parameters, outputs, errors and costs"],
  "stateless model checking: all histories within bounds against plain loops with back propagation and the set of states the sampling chains can reach",
  "Sampling is nondeterminism resolved by the library's generator: the reference accepts any reachable sample.",
  "networks of up to 2 machines and an output layer, widths 1-3, batches of 1-3; 3 steps of training, 4 steps of copy histories", "4 and 5 steps")
