NA={}
CHECKS = {
"C01": dict(runs=[dict(h="c01", quick=[0,1,2,3,4], thorough=[0,1,2,3,4,5,6])], reach=["acyclic","cyclic","duplicate"],
  bounds="Up to 4 passes with every dependency relation (every digraph, cyclic ones included), 3 passes over 3 nested groups, 4 creations over 2 names and 2 groups; thorough: every DAG of 5 passes, 4 passes over 3 groups."),
"C03": dict(runs=[dict(h="c03", quick=[0,1,2,3,4,5,6,7,8], thorough=[0,1,2,3,4,5,6,7,8,9,10,11,12])], reach=["never-set","uniform","volume","second-only"],
  bounds="Images of up to 4 layers, 4 levels or 4 slices; two symbolic updates (three in thorough) and one symbolic query per run, any access and stage masks, 3 layouts; ranges are explicit (no VK_REMAINING_*)."),
"C04": dict(runs=[dict(h="c04", quick=[0,1,2,3,4,5,6], thorough=[0,1,2,3,4,5,6,7,8,9])], reach=["barrier","no-barrier"],
  bounds="One image of up to 2 layers and 2 levels (3 and 3 in thorough), colour, depth and depth-stencil, array or volume, both depth-stencil aspect modes; two or three requests with symbolic range, wanted layout out of four, access, stage, force and discard flags, from any initial layout; volumes are addressed by whole levels."),
"C05": dict(runs=[dict(h="c05", quick=[0,1,2,3,4], thorough=[0,1,2,3,4,5])], reach=["barrier","no-barrier","merge","used"],
  bounds="Up to 4 requests or updates over 2 buffers with any 32-bit masks and 64-bit ranges; graphs of 3 ordered passes with every uniform, storage or transfer use of up to 2 buffers, any enabled subset, graphics or compute."),
"C10": dict(runs=[dict(h="c10", quick=[0,1,2], thorough=[0,1,2])], reach=["in","out","inout","buffer","equal","unequal"],
  bounds="Every attachment declaration call of a pass (23 image kinds, 15 buffer kinds), one or two views or buffers, any binding, range and wanted state, graphics or compute, both depth-stencil layout modes."),
"C12": dict(runs=[dict(h="c12", quick=[0,1,2,3], thorough=[0,1,2,3,4])], reach=["match","differ","volume-match","extent"],
  bounds="Any 32-bit layer and level numbers, 5 view types, 16 aspect masks, two images; volumes of up to 8 slices and 4 levels (4 and 3 in quick), a slice range naming one level; any 32-bit extents and levels 0 to 31."),
"C13": dict(runs=[dict(h="c13", quick=[0,1,2,3,4,5], thorough=[0,1,2,3,4,5,6])], reach=["depth","colour","known-layout","memory","no-memory","align"],
  bounds="Every 32-bit format, layout and stage mask value; up to 3 memory types (8 in thorough) with any flags; any offset and size below 2^62."),
"C21": dict(runs=[dict(h="c21", quick=[0,1,2], thorough=[0,1,2,3,4,5])], reach=["called","assigned over","sequence","disconnects","connects","reentrant"],
  bounds="Any sequence of 4 operations over 2 signals and 2 connections or 3 over 3 connections (5 and 4 in thorough) among connect (the connection assigned over the slot's), disconnect, destroy, move, assign one connection over another and destroy the signal, then either destruction order; emissions with 3 slots (4 in thorough) that each disconnect any set of slots, one of them connecting a new one."),
"C16": dict(runs=[dict(h="c16", quick=[0,1,2], thorough=[0,1,2,3,4,5,6])], reach=["graph","pass-time","values","shared"],
  bounds="Graphs of 2 passes (3 in thorough), any enabled subset in each of 2 frames (3), results read or not after each; 12-bit tick differences (20-bit in thorough) from two starts, timestamp periods 1, 2, 0.5, 40 and 0.25 ns on one device and 1 or 2 on another; the reported time may be off by one nanosecond plus one part in 2^20; two timers (three) sharing a pool."),
"C17": dict(runs=[dict(h="c17", quick=[0,1,2,3,4], thorough=[0,1,2,3,4,5,6,7])], reach=["submit","wait","reset","timeout","fence","run","sequence"],
  bounds="Up to 3 requested waits (4 in thorough) over two semaphores and the null one with any 32-bit stages, every form of run; any sequence of 4 operations (6 in thorough) among reset, submit, wait, wait that may time out and move on a fence, and among record, run, wait, timed-out wait and completion on a graph."),
"C32": dict(runs=[dict(h="c32", quick=[0,1,2,3], thorough=list(range(9)))], reach=["ids","shared","own","graphs","preempted","blocked","all-switches"],
  bounds="2 threads (3 in thorough) on one handler, each 1 or 2 operations: identifiers of any of 2 descriptions; creation, request and destruction of a shared image and view; objects of 4 kinds of their own in one context; a whole graph in a context of its own. Preemption up to 4, 3, 2 and 1 times at any of the first 20, 40, 80 and 1200 steps (all a run has), a step being a lock, an unlock or a driver call; data races on heap memory between steps are found by happens-before; sequentially consistent memory; a context's deletion queue and global variables are out."),
"C20": dict(runs=[dict(h="c20", quick=[0,1,2,3,5,6], thorough=[0,1,2,3,4,5,6,7])], reach=["same-view","other-view","images","same-sampler","other-sampler","content","vertices","destroy","drop","churn"],
  bounds="Two view descriptions with every field symbolic (32-bit formats, 2 images), two images with any 32-bit parameters, two samplers with 2 values per enumerated field or 3 per number, every full screen triangle; any 4 creations and destructions (5 in thorough) over 2 images, a view and 2 caches of one context."),
"C24": dict(runs=[dict(h="c24", quick=[0,1], thorough=[0,1,2,3])], reach=["pass","group","refused","compiled","image","view"],
  bounds="Any sequence of 4 creations (5 in thorough) of groups and passes with 2 names in any group made so far; any sequence of 4 images and views (5 in thorough) made through the handler, two graphs or a group, with any 32-bit parameters."),
"C15": dict(runs=[dict(h="c15", quick=[0,1,2,3,4,5,6,7,8], thorough=[0,1,2,3,4,5,6,7,8])], reach=["copy","blit","to-image","to-buffer","pairs","buffers","inside","icopy","iblit","iclear"],
  bounds="Every copy and blit pass and implicit action, on any view of 2D images with 3 layers and 2 levels (volumes with 2 levels for copies), colour or depth-stencil, attachments of two views or buffers selected by the pass index; offsets and extents up to 2^30, buffer offsets and sizes up to 2^61."),
"C14": dict(runs=[dict(h="c14", quick=[0,1], thorough=[0,1,2,3])], reach=["blit","single","levels","volume"],
  bounds="Every width and height up to 2^31-1, depth up to 3, 1 to 3 levels (5 in thorough), any layers of a 2-layer image (3 in thorough) or a volume, colour or depth; written before by a transfer or a storage pass or received, read after by one of three kinds of use or none; announced layout given or not."),
"C23": dict(runs=[dict(h="c23", quick=list(range(5)), thorough=list(range(7)))], reach=["plain","render","dispatch","dispatch-indirect","disabled","draw","draw-indexed","draw-indirect","quad","quad-indirect"],
  bounds="Compute, mesh and quad passes with 2 indices: any 32-bit counts, callback presence, program source (one, per index, creator), extra descriptor layout and push range, buffers present or not, enabling by flag or callback; targets up to 2^14 pixels wide at mip level 0 or 1, with or without depth. Passes and render passes made from callbacks alone by each constructor, up to 2 actions before and after, 2 or 3 recordings with another index and enabling."),
"C22": dict(runs=[dict(h="c22", quick=[0,1,2], thorough=[0,1,2,3])], reach=["texel","buffer","sampled","storage"],
  bounds="A compute pass with any 2 attachments, or a quad pass with any one (2 in thorough), of the 19 ways to declare a buffer or image, with one or two resources each; 32-bit bindings, offsets and sizes up to 2^62; both pass indices recorded in turn."),
"C11": dict(runs=[dict(h="c11", quick=[0,1,2,3,4,5], thorough=[0,1,2,3,4,5,6,7])], reach=["merged","cube","twice"],
  bounds="Merges of 1 to 3 views with any ranges, of every type their image allows, of images of up to 18 layers and 4 levels, 1D, 2D, cube compatible or volumes; any format value; with or without merging levels and layers."),
"C02": dict(runs=[dict(h="c02", quick=[0,1,2,3,4,5], thorough=list(range(11)))], reach=["transition","hazard","disjoint","buffer-transition","buffer-hazard"],
  bounds="2 or 3 passes (4 in thorough) with any acyclic dependencies, each using one view of 1 or 2 images (or one of 2 buffers) in one of 9 (7) ways, any range of up to 4 layers and 3 levels, volumes and views merged from two others; a reader depending on the writer directly, or through passes that do not touch the image."),
"C06": dict(runs=[dict(h="c06", quick=[0,1,2,3,4,5], thorough=list(range(12)))], reach=["ran","disabled","read-back"],
  bounds="Chains of 2 or 3 passes (4 in thorough), each using any range of a 2-layer image with up to 2 levels in one of 11 ways (6 for depth-stencil), enabled or not in each of up to 2 recordings (3), with or without an input; pairs of passes reading one of two images while writing the other, and views merged from two ranges."),
"C08": dict(runs=[dict(h="c08", quick=[0,1,2,3,7,8], thorough=list(range(10)))], reach=["disabled","implicit","next","output","next-index"],
  bounds="Chains of 2 or 3 passes (4 in thorough) of up to 7 kinds on two views, of one image or two, whole or per layer, with no implicit action, one, or one that runs the other view's, every enabled subset, a pass without enabling function, a registered output or not, up to 2 recordings; implicit actions are due at the next use of the very view they are registered for; chains of 2 or 3 passes of up to 5 kinds on one view or on a pair of views, one per pass index."),
"C09": dict(runs=[dict(h="c09", quick=list(range(11)), thorough=list(range(16)))], reach=["input","output","next-graph","exchange"],
  bounds="Graphs of 1 or 2 passes of up to 6 kinds with one or two input and output layouts on any ranges of an image of up to 3 layers or 2 levels, colour, depth-stencil or volume, up to 2 recordings; chains and diamonds of 3 graphs recorded once in dependency order, two graphs exchanging an image; what nobody gave a layout to is left alone, and an input layout is not also given by a dependency."),
"C07": dict(runs=[dict(h="c07", quick=list(range(6)), thorough=list(range(9)))], reach=["pass","loaded","undefined","again"],
  bounds="Render passes with up to 3 colour targets and one depth-stencil target of two formats, each input, in/out or output on any layers of its image, declared or arbitrary load and store operations, any clear values, colour write masks and sample counts; preceded and followed by passes of up to 6 kinds enabled or not, input and output layouts, up to 2 recordings (3 in thorough); depth targets come first in the attachments."),
"C18": dict(runs=[dict(h="c18", quick=[0,1,2,3,4,5], thorough=list(range(13)))], reach=["run","reset","end","graphs"],
  bounds="Any 2 operations (3 or 4 in thorough) among run, record, reset of a pipeline with the same or a new program, change of index and enabling, on a graph of 2 passes of 6 kinds with 2 pass indices and pipelines shared, per index or made by a creator, one reading the other's image; any 3 (4) among run, reset, change of index and destruction on two graphs with images of their own or shared; one context and handler, no work in flight when a graph is destroyed."),
"C26": dict(runs=[dict(h="c26", quick=[0,1,2,3,4], thorough=list(range(9)))], reach=["run","reset","end"],
  bounds="A first run then any 2 or 3 operations (4 in thorough) among run, record, reset with the same or a new program, record of a pass alone, change of index and enabling, on one or two graphs of 2 passes of 5 kinds, 2 indices, pipelines shared, per index or made by a creator; submissions end when their fence is waited on, graphs are destroyed after that."),
"C19": dict(runs=[dict(h="c19", quick=list(range(9)), thorough=list(range(10)))], reach=["failed","caches","compile","record","reset","graph"],
  bounds="Any one creation, allocation, binding, mapping, flush, command buffer begin, end or reset, fence reset or unlimited wait, or submission call (any two; three in thorough) failing with any error code, during requests of images, views, samplers and vertex buffers from a cache, or the compilation, 3 runs and a pipeline reset of graphs of 2 passes of 6 kinds, 2 indices and three sources of programs; times read or not after each run; a failing call has no effect (a failing end leaves the command buffer unusable until reset)."),
"C25": dict(runs=[dict(h="c25", quick=list(range(8)), thorough=list(range(14)))], reach=["run","one","two","actions"],
  bounds="A pass of any of 11 kinds with 2 or 3 indices (4 in thorough), each resource declared once or per index, three sources of programs, targets of one size per index, indirect arguments or not, clears before and after the pass; two passes with indices of their own, one reading what the other writes; every sequence of indices over 2 or 3 recordings. A pass never reports an index it was not made for."),
"C27": dict(runs=[dict(h="c27", quick=list(range(5)), thorough=list(range(8)))], reach=["passes","transitions"],
  bounds="Graphs of 2 or 3 passes (4 in thorough) in up to 5 groups nested in each other, some of the same name, each pass reading the image or buffer of any of the previous ones, all 16 configurations, as documents or to a stream; passes have distinct names, and splitting by group leaves out transitions from or to the outside."),
"C29": dict(runs=[dict(h="c29", quick=list(range(9)), thorough=list(range(17)))], reach=["run","drawn","indices","toggled","targets","resources","transfers","meshes","chain","actions"],
  bounds="Passes of every kind this library has: render quads, meshes and render passes with up to 2 colour targets and one depth, stencil or depth-stencil target of 5 formats, written, read or cleared, of any sub-range of 3 layers and 3 levels, of one or 4 samples, with and without separate depth and stencil layouts; up to 2 images and 1 buffer (2 buffers) as shader resources; copies, blits, mipmap generation between any sub-ranges; chains of 2 passes (3 in thorough) over one colour or depth image; actions around passes; one or 2 pass indices (3 in thorough); 1 or 2 recordings with any passes enabled. The valid usage rules checked are listed in harness/valid.hpp; what the user gives (sizes of viewports, usages of images, alignment of offsets, equal sizes of targets) is taken as valid; views are 2D arrays or whole volumes; limits and features of devices are out."),
"C28": dict(runs=[dict(h="c28", quick=list(range(8)), thorough=list(range(15)))], reach=["after-write","after-read","ran","two","graphs"],
  bounds="2 or 3 passes (4 in thorough) sharing one image of up to 2 layers, or using either of two images, colour or depth, in 10 kinds of use over any ranges of layers, every set of enabled passes, one or two recordings, fragment or compute shaders, after writes made outside of the graph; 2 or 3 graphs that depend on each other. The core Vulkan rules of execution and memory dependencies for barriers, render pass dependencies, clears and layout transitions; by-region dependencies are taken as whole ones, a recording starts after the end of the previous submission of its graph."),
"C30": dict(runs=[dict(h="c30", quick=list(range(8)), thorough=list(range(14)))], reach=["cleared","clearable","kept","index","target"],
  bounds="2 or 3 passes (3 or 4 in thorough), graphics or compute, every set of them enabled, in 6 kinds of use over any ranges of one image of up to 2 layers and 2 levels (colour, depth, depth-stencil in both layout modes, volumes by whole levels), or 7 kinds of use over one or several ranges of a 256 byte buffer, multiples of 4 bytes or to the end, judged at any byte; a pass over 2 or 3 indices, recorded twice or three times; quads, meshes and render passes with up to 2 colour targets (3 in thorough) and a depth, stencil or depth-stencil target at any place among them, any 32-bit clear values. Each pass uses a resource once."),
"C31": dict(runs=[dict(h="c31", quick=list(range(8)), thorough=list(range(13)))], reach=["after-write","after-read","used","chain","several","graphs"],
  bounds="2 or 3 ordered passes (4 in thorough), fragment or compute, every set of them enabled, in 16 kinds of use (uniform, storage, clearable and transfer uses, views, implicit uses by indirect draws, vertices or the host) over one range or any ranges, multiples of 4 bytes or to the end, of a 256 byte buffer judged at any byte, or over two buffers of up to 2 indices; recorded once or twice; 2 or 3 graphs depending on each other. The core Vulkan rules of execution and memory dependencies; shaders are fragment or compute ones; a recording starts after the end of the previous submission of its graph."),
}
