#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as data here so that edits stay readable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
S="source/RenderGraph/"; I="include/RenderGraph/"; R=S+"RunnablePasses/"; RI=I+"RunnablePasses/"

p("C01","Compiled graphs run every pass once, after everything it depends on",
 "For every frame graph whose declared pass dependencies are acyclic, with passes spread over any nesting of groups, compiling succeeds and recording executes each enabled pass exactly once, after all passes it depends on directly or transitively. A graph without passes, a cycle of dependencies next to a dependency-free pass, and a second pass with an already used name in the same group are rejected with an exception, any other cycle is either rejected or still runs every pass exactly once; asking for an existing sub-group name returns that group.",
 ["programs","inputs"],"All dependency relations over up to ~12 passes in nested groups, listed in any order, with any enabled subset.",
 "Tests build about fifteen fixed dependency shapes; the number of dependency relations and listing orders is unbounded.",
 [S+"FrameGraph.cpp",S+"FramePassGroup.cpp",S+"RunnableGraph.cpp"],
 [("sortPasses",S+"FrameGraph.cpp"),("listPasses, createPass, createPassGroup",S+"FramePassGroup.cpp")],
 ["order of record callbacks of the compiled graph","exceptions from compile/createPass"])

p("C02","Derived transitions and graph edges are exactly the real producer-consumer pairs",
 "After compilation, the published transitions connect a pass that writes a view (or buffer) to a pass that reads that same view, or one mip level of it, once for each pair of their distinct attachments of it, exactly when some chain of declared dependencies leads from the reader to the writer with no pass in between using that same resource; a merged view counts as each of the views it was made of. Inputs nothing in the graph writes any part of come from an external side, outputs nothing reads as such go to one. Each pass is one node, reachable from the graph's root, right below the nodes of the passes that hand something over to it, or else below the root.",
 ["programs","inputs"],"All graphs of up to ~10 passes whose attachments use random layer/mip/aspect ranges, merged views, 2D/array/3D views and buffer ranges.",
 "Tests compare a few hand-written transition lists on mostly whole-image views; overlap of ranges and chains of writers are barely sampled.",
 [S+"FramePassDependenciesBuilder.cpp",S+"GraphBuilder.cpp",S+"FramePass.cpp",S+"GraphNode.cpp",S+"AttachmentTransition.cpp"],
 [("buildPassAttachDependencies",S+"FramePassDependenciesBuilder.cpp"),("buildGraph",S+"GraphBuilder.cpp"),("FramePass::dependsOn",S+"FramePass.cpp")],
 ["the compiled graph's transitions and node graph"])

p("C03","Every subresource is in its declared layout whenever a pass uses it",
 "Whenever recorded commands execute, each image subresource that an enabled pass uses through an attachment (sampled, storage, transfer, colour, depth/stencil or implicit with a wanted layout) is in the layout that attachment kind stands for, at the moment the pass's own commands run. This holds for any graph, any set of enabled passes changing from frame to frame, any pass index selected, and for every frame.",
 ["programs","histories","configurations"],"All graphs of generic, render, compute, copy, blit and mip-generation passes over shared images; all sequences of enabled sets and pass indices over several frames; separate depth/stencil layouts on and off.",
 "Tests never execute the recorded commands: the fake device ignores layouts, so no test can see a subresource in a wrong layout.",
 [S+"RunnablePass.cpp",S+"RecordContext.cpp",S+"RunnableGraph.cpp",R+"RenderPassHolder.cpp",R+"GenerateMipmaps.cpp",S+"Attachment.cpp"],
 [("RunnablePass::recordInto",S+"RunnablePass.cpp"),("RecordContext::memoryBarrier",S+"RecordContext.cpp"),("RenderPassHolder::begin/end",R+"RenderPassHolder.cpp")],
 ["layouts of a simulated device at each use, from the recorded command stream"],
 [("per-layer/mip layout map","layout the library believes each subresource is in",I+"LayerLayoutStatesHandler.hpp")])

p("C04","Layout transitions start from the true layout and never drop data still needed",
 "Every layout transition the library records (barrier or render pass) names as old layout either the layout the subresource really has at that point or 'undefined', and stays inside the image. Data written by a pass, a clear, or an earlier frame is never discarded by such a transition before an enabled pass that declares those subresources as an input has read it.",
 ["programs","histories","configurations"],"Same space as the layout property: random graphs, enabled sets, pass indices and frame sequences, including chained graphs and declared graph inputs.",
 "The tests' fake device records nothing about contents or old layouts.",
 [S+"RecordContext.cpp",S+"RunnablePass.cpp",S+"RunnableGraph.cpp",R+"RenderPassHolder.cpp",R+"GenerateMipmaps.cpp",R+"ImageCopy.cpp"],
 [("memoryBarrier old-layout choice",S+"RecordContext.cpp"),("getCurrentLayoutState",S+"RunnableGraph.cpp"),("initialLayout / loadOp choice",R+"RenderPassHolder.cpp")],
 ["old layouts and per-subresource content versions on a simulated device"])

p("C05","Buffer hand-over between passes is always covered by a matching barrier",
 "Whenever an enabled pass uses a buffer (uniform, storage, transfer, implicit, or cleared beforehand) that was used before in the recorded stream with another access or stage, or that was written, every byte of its declared range is covered in between by a buffer barrier, or a chain of them, whose first source is the access and stage of that previous use and whose last destination is the access and stage the new use declares. Buffers marked as needing no transition get none.",
 ["programs","histories"],"All graphs of passes sharing buffers in any role and range, enabled sets over several frames, compute or graphics users, single and per-pass-index buffers.",
 "Tests check a handful of single-buffer passes and never compare a barrier's source with the previous user.",
 [S+"RunnablePass.cpp",S+"RecordContext.cpp",S+"Attachment.cpp"],
 [("recordInto, buffer part",S+"RunnablePass.cpp"),("memoryBarrier(buffer)",S+"RecordContext.cpp"),("getAccessMask/getPipelineStageFlags",S+"Attachment.cpp")],
 ["recorded buffer barriers of each frame","reported final buffer state"])

p("C06","Render passes and framebuffers describe exactly the declared attachments",
 "For every render pass the library builds from a pass's colour, depth and stencil attachments, the attachments appear once each, depth / stencil first and colours in declaration order, with their view's format, their declared load/store behaviour (cleared when what they would load is undefined), clear values and blend states at matching positions, referenced from the right slot in the right layout. The framebuffer holds the views of the pass index being recorded and, like the render area, has the configured size and layer count.",
 ["programs","inputs","configurations"],"All combinations of input, output and in-out colour, depth, stencil and depth/stencil attachments over formats, mips, layers, sizes, pass indices and frames.",
 "Tests construct about a dozen attachment lists and look at creation success, not at the created descriptions.",
 [R+"RenderPassHolder.cpp",R+"RenderPass.cpp",I+"FramePass.hpp",S+"Attachment.cpp"],
 [("RenderPassHolder::doCreateRenderPass/doCreateFramebuffer",R+"RenderPassHolder.cpp"),("attachment load/store/clear values",I+"FramePass.hpp")],
 ["create-infos given to the device for render passes and framebuffers","render pass begin commands"])

p("C07","Layout bookkeeping behaves as an exact per-layer, per-mip map",
 "Setting a layout state on any range of an image and reading any range back behaves like a map from (image, layer or depth slice, mip) to state: the last write to each cell wins, other images, layers and mips are untouched, unset cells read as undefined, and a range whose cells agree on the layout reads back that layout with the accesses and stages of all of them. A layout transition recorded through the context takes every subresource of the range from the layout the map holds to the wanted one, and updates the map; merging another set of states only fills in what is not known yet, and a graph's declared inputs, outputs and final states answer by the same rules.",
 ["histories","inputs"],"All sequences of set/get/merge operations over 1D/2D/3D/cube/array views, any layer/mip range, through every public entry point that stores layouts.",
 "Tests write and read one or two ranges; interactions between overlapping ranges and histories are unbounded.",
 [S+"LayerLayoutStatesHandler.cpp",S+"FrameGraph.cpp",S+"RecordContext.cpp"],
 [("addSubresourceRangeLayout/getSubresourceRangeLayout/getVirtualRange",S+"FrameGraph.cpp"),("LayerLayoutStatesHandler",S+"LayerLayoutStatesHandler.cpp")],
 ["values returned by the public layout-state getters"])

p("C08","Chained graphs hand images and buffers over in the state the previous graph left",
 "When a graph is declared to depend on other graphs, or declares input layouts for images it receives, its recorded commands start from exactly those states, and images it declares as outputs are left in the declared output layout by the last render pass that uses them. After running, the final layout it reports for each subresource it used equals the layout the device really left it in.",
 ["histories","programs","configurations"],"Chains of up to 4 graphs sharing images, in any dependency arrangement, with declared inputs/outputs, re-run in any order over many frames.",
 "Tests chain two graphs once with one image and never execute the commands.",
 [S+"RunnableGraph.cpp",S+"FrameGraph.cpp",S+"RecordContext.cpp"],
 [("RunnableGraph::record",S+"RunnableGraph.cpp"),("addStates",S+"RecordContext.cpp"),("addInput/addOutput/getFinalLayoutState",S+"FrameGraph.cpp")],
 ["simulated device layouts before/after each graph","reported final states"])

p("C09","Device objects live exactly as long as needed and are destroyed exactly once",
 "For any history of building, compiling, running, resetting, recompiling and destroying graphs, every device object the library creates is destroyed exactly once, with its own kind of call and only while nothing it depends on is gone, no command or later call uses a destroyed object, and nothing remains once graphs, handler and context are destroyed. Asking twice for the same image, view, sampler or vertex buffer returns the same object, and an image's memory is allocated to fit and bound before use.",
 ["histories","programs"],"All interleavings of create/compile/run/reset/recompile/destroy over several graphs sharing a handler and a context, with every pass kind.",
 "Tests destroy everything in one fixed order at scope end with counters instead of handle identity.",
 [S+"ResourceHandler.cpp",S+"RunnableGraph.cpp",S+"RunnablePass.cpp",R+"PipelineHolder.cpp",R+"RenderPassHolder.cpp",S+"GraphContext.cpp"],
 [("ResourcesCache/ContextResourcesCache",S+"ResourceHandler.cpp"),("ContextObjectT",I+"FrameGraphPrerequisites.hpp"),("DeletionQueue",I+"GraphContext.hpp")],
 ["create/destroy calls and handle uses on a simulated device"])

p("C10","A failing device call surfaces as an exception and leaks nothing",
 "If any object-creating, allocating or binding device call fails at any point of compiling, recording or resource creation, the failure reaches the caller as an exception of the library's type, never as a crash, a hang or silent success. After the failure, or an exception thrown by one of the user's callbacks, everything can still be destroyed with each created object destroyed exactly once, and retrying once the device works again succeeds, repeating an initialisation that failed.",
 ["fault_sequences","programs"],"Every device call position in every generated scenario, every failing result code, single faults, followed by teardown or retry.",
 "Tests have no device that fails.",
 [S+"ResourceHandler.cpp",S+"GraphContext.cpp",S+"RunnableGraph.cpp",R+"PipelineHolder.cpp",R+"RenderPassHolder.cpp"],
 [("checkVkResult",S+"GraphContext.cpp"),("per-object creation and cleanup",S+"ResourceHandler.cpp")],
 ["exceptions, and create/destroy balance on a fault-injecting simulated device"])

p("C11","Equal view and sampler descriptions share one object; different ones never do",
 "Two view or sampler requests yield the same identity or object exactly when their descriptions are equal in every field that affects the created object (for views: image, kind, format, range, swizzle), every image request yields an identity of its own, and each device object is created with exactly the described parameters and shared by all who ask for that identity. Merging views yields a view whose range is the union of its sources in each merged dimension and the first level or layer in one not merged, and which resolves back to source i for pass index i.",
 ["inputs","histories"],"All sequences of requests with pairwise small mutations of each field, and all merges over views of one image.",
 "Tests create a few identical and clearly different descriptions; each field's role is not exercised.",
 [S+"ResourceHandler.cpp",S+"FramePass.cpp",I+"ImageData.hpp",I+"ImageViewData.hpp"],
 [("createImageId/createViewId/createSampler",S+"ResourceHandler.cpp"),("mergeViews, resolveView",S+"FramePass.cpp")],
 ["ids returned, create-infos passed to the device"])

p("C12","Descriptor layouts, pools and sets match the pass's attachments",
 "For every pipeline pass, the descriptor layout has exactly one binding per bound attachment with the right type and number, the pool is large enough for one set per pass index, and when a draw or dispatch executes, the bound set belongs to the current pass index and each binding refers to that index's view or buffer, with the declared range, sampler and image layout. The bound pipeline layout starts with that descriptor layout followed by the configured extra layouts and push-constant ranges.",
 ["programs","configurations","histories"],"All attachment lists of sampled, storage, uniform and buffer-view bindings, pass indices, merged views, and record histories.",
 "Tests check that creation calls happen, for a few attachment lists, not what they contain.",
 [R+"PipelineHolder.cpp",S+"Attachment.cpp",I+"WriteDescriptorSet.hpp",S+"FramePass.cpp"],
 [("PipelineHolder::doCreateDescriptorSetLayout/Pool/Set",R+"PipelineHolder.cpp"),("Attachment::getBufferWrite",S+"Attachment.cpp")],
 ["descriptor create/update/bind calls on a simulated device"])

p("C13","Copy, blit and mip generation touch exactly the intended regions",
 "Image-to-image, buffer and image/buffer copy passes, blit passes, the ready-made copy/blit/clear actions and mip generation record exactly the transfers their parameters describe: right source and destination resource for the pass index, the views' aspect, mip and layers, given offsets and extents, always inside the subresources touched and in transfer layouts. Mip generation fills every level above the base of every layer from the level below with halved, never zero, extents.",
 ["inputs","configurations","programs"],"All image sizes, formats, mip and layer counts, offsets, extents, filters, final layouts and pass indices accepted by these passes.",
 "Tests run each pass with one size and check only that it records.",
 [R+"ImageCopy.cpp",R+"ImageBlit.cpp",R+"BufferCopy.cpp",R+"BufferToImageCopy.cpp",R+"ImageToBufferCopy.cpp",R+"GenerateMipmaps.cpp",S+"RecordContext.cpp"],
 [("doRecordInto of each pass",R),("copyImage/blitImage/clearAttachment",S+"RecordContext.cpp")],
 ["transfer commands executed on a simulated device"])

p("C14","Submissions wait for what they must and never touch work still in flight",
 "Each run submits the graph's own command buffer exactly once, waiting on each distinct non-null semaphore it was given with that semaphore's stage, signalling the graph's own semaphore and fence, and returns that semaphore to wait on. The command buffer is only reset or re-recorded, the fence only reset, and queued deletions only executed, once the graph's previous submission is known to have finished.",
 ["histories","schedules"],"All sequences of runs, re-records and resets with any wait lists (duplicates, null) and any completion timing of earlier submissions, over one or several graphs.",
 "Tests' device completes instantly and ignores submissions.",
 [S+"RunnableGraph.cpp",S+"RunnablePass.cpp"],
 [("RunnableGraph::run/record",S+"RunnableGraph.cpp"),("Fence, convert",S+"RunnablePass.cpp")],
 ["submit/reset/wait/destroy calls ordered on a simulated device with lazy completion"])

p("C15","GPU timers use their own query slots and report real elapsed time",
 "In every recorded frame each enabled pass and the graph reset and write their own two timestamp slots, begin before and end after the pass's commands, inside the query pool and never shared with another timer or with the slots of the frame whose results are still to be read. Once a frame's queries are retrieved, each timer reports as GPU time the elapsed ticks converted with the device's timestamp period, once per rendered frame, and passes that did not run report nothing new.",
 ["histories","programs"],"All graphs, enabled sets, frame sequences, tick values and timestamp periods, with retrieval after any frame.",
 "Tests read one timer after one frame on a device returning constant data.",
 [S+"FramePassTimer.cpp",S+"RunnableGraph.cpp",S+"RunnablePass.cpp"],
 [("FramePassTimer begin/end/retrieveGpuTime",S+"FramePassTimer.cpp"),("query pool sizing and offsets",S+"RunnableGraph.cpp")],
 ["query commands and results on a simulated device","reported times"])

p("C16","Disabled passes leave no trace except their registered substitutes",
 "A disabled pass records no command and is not initialised, while an enabled pass runs in this order: its transitions, its pre-actions in registration order, its own commands, its post-actions in registration order, with the pass index in force. A substitute action registered by a pass for a view runs exactly once per frame, just before the first later enabled pass that uses exactly that view (or ready-made copy or blit substitute reading it), if and only if the registering pass is disabled at that time.",
 ["histories","programs","configurations"],"All graphs with any number of pre/post/substitute actions, enabled sets and pass indices changing over frames.",
 "Tests register one implicit action and toggle one pass.",
 [S+"RunnablePass.cpp",S+"RecordContext.cpp",S+"RunnableGraph.cpp"],
 [("recordInto",S+"RunnablePass.cpp"),("registerImplicitTransition/runImplicitTransition",S+"RecordContext.cpp")],
 ["order of callbacks and commands per frame"])

p("C17","Signals reach exactly the connected slots; queued deletions run exactly once",
 "For any history of connecting, disconnecting, moving connections and destroying either side, emitting a signal calls each currently connected slot exactly once with the emitted arguments and nothing else, and no operation touches a destroyed signal. Deferred deletions run exactly once, in the order queued, at the next clear, including those queued while clearing, which wait for the following clear.",
 ["histories"],"All operation sequences over several signals, connections and deletion queues, including connection moves and destruction in any order.",
 "Tests connect one slot; histories are unbounded.",
 [I+"Signal.hpp",I+"GraphContext.hpp"],
 [("Signal/SignalConnection",I+"Signal.hpp"),("DeletionQueue",I+"GraphContext.hpp")],
 ["slot invocations","deleter invocations"])

p("C18","Graph export shows every linked pass and transition once, in valid DOT",
 "For every compiled graph the exported DOT text is syntactically valid whatever characters names contain, has one node per pass linked to another (or, in transition view, taking part in a transition) placed in the cluster(s) of its groups, and in transition view one node and in/out edge per transition between the right passes, with external sides shown. Colour, id and group options change only the presentation they name, and splitting by group distributes the passes without losing or duplicating any.",
 ["programs","configurations"],"All graphs with nested groups, names, attachment kinds and all option combinations.",
 "Tests write files and never read them back.",
 [S+"DotExport.cpp",S+"GraphNode.cpp"],
 [("DotOutVisitor",S+"DotExport.cpp"),("displayPasses/displayTransitions",S+"DotExport.cpp")],
 ["exported DOT text, parsed"])

p("C19","Clearable attachments are cleared in full right before their pass runs",
 "When an enabled pass declares an image or buffer attachment as cleared beforehand, the whole declared range (all layers and mips of the view, or the buffer range, which must be 4-byte aligned) is cleared to zero after any earlier use and before the pass's own commands, exactly once per recording, with transfer-write layout or access in force at the clear. Attachments not declared so are never cleared or filled by the library.",
 ["programs","inputs","histories"],"All graphs mixing clearable and other attachments over colour and depth formats, ranges, pass indices, enabled sets and frames.",
 "Tests use one clearable view and one clearable buffer and do not inspect ranges.",
 [S+"RunnablePass.cpp",S+"FramePass.cpp",S+"Attachment.cpp"],
 [("recordInto, clear part",S+"RunnablePass.cpp")],
 ["clear and fill commands executed on a simulated device"])

p("C20","Draws and dispatches use the configured parameters of the current pass index",
 "Each recorded compute pass dispatches exactly once with its configured group counts (constant or evaluated at record time) or indirect source, and each quad or mesh pass draws once inside its render pass with its configured vertex, index, instance or indirect parameters, buffers and viewport, always with the pipeline built from the program of the current pass index (or the shared one). A quad covers the viewport (the render area when no size is set), its texture coordinates going from 0 to 1 over it or mirrored when inverted. After a pipeline or render pass reset, the next recording uses objects rebuilt from the new configuration.",
 ["configurations","histories","programs"],"All compute, quad and mesh configurations, pass indices, resets and frames.",
 "Tests record a few configurations and do not look at the issued commands.",
 [R+"ComputePass.cpp",R+"RenderQuadHolder.cpp",R+"RenderMeshHolder.cpp",R+"RenderQuad.cpp",R+"RenderMesh.cpp",R+"PipelineHolder.cpp"],
 [("doRecordInto of each pass",R),("PipelineHolder::resetPipeline/getPipeline",R+"PipelineHolder.cpp")],
 ["pipeline creation infos and draw/dispatch commands on a simulated device"])

p("C21","Attachment declarations have one consistent meaning everywhere",
 "Whatever way an attachment is declared, its direction and kind queries, wanted layout, access and stage flags, descriptor type, load/store operations, names and views or buffers per index agree with the declared role, and a pass depends on another for a view or buffer exactly when that other pass is the nearest declared writer of it along the declared dependencies. Copies, equality and merging of attachments and transitions, and the helper queries (mip extents, aspects, access and stage masks of layouts, range matching, virtual ranges, view resolution, flag conversions) preserve that meaning.",
 ["inputs","configurations"],"All declaration calls with all flags, formats, layouts, ranges, pass indices and separate depth/stencil layout settings.",
 "Tests check a subset of query results for one format and range per declaration.",
 [S+"Attachment.cpp",I+"Attachment.hpp",S+"FramePass.cpp",S+"FrameGraph.cpp",S+"AttachmentTransition.cpp",S+"RunnablePass.cpp"],
 [("Attachment getters",S+"Attachment.cpp"),("FramePass::add*",S+"FramePass.cpp")],
 ["public attachment queries"])

p("C22","Recording is deterministic and settles: same graph, same frame, same commands",
 "Building the same graph twice, or irrelevantly differently (names, unrelated passes' presence in another graph, handle values), yields the same command stream up to renaming of handles. Re-running a graph with unchanged enabled passes and indices reaches a fixed point at its second such run: from then on every run records the same commands with the same objects (but for the timers' two halves), creates no object and reports the same final states. What a graph without dependencies records then does not depend on what was enabled before, and a resettable pass re-recorded on its own repeats what it recorded into that frame, any number of times, without disturbing later frames.",
 ["programs","histories"],"All graphs, two independent builds each, many frames with constant configuration.",
 "Tests record a graph once or twice and do not compare streams.",
 [S+"RunnableGraph.cpp",S+"RunnablePass.cpp",S+"RecordContext.cpp",S+"FramePassDependenciesBuilder.cpp"],
 [("RunnableGraph::record",S+"RunnableGraph.cpp"),("registerFinalState",S+"FrameGraph.cpp")],
 ["recorded command streams of a simulated device"])

p("C23","Threads may share one resource handler",
 "When several threads at once request identities, images, views, samplers or vertex buffers from one resource handler, or each build, compile, record, run, export and destroy graphs of their own (in a context of their own) on it, no data race occurs and every result is as if the requests had come one at a time. That is: images get distinct identities, equal view descriptions one identity, each identity one device object complete with its memory, which exactly one requester is told it created, each object is destroyed once, and each graph does what it does alone.",
 ["schedules","inputs","histories"],"All request sequences of several threads and all their interleavings.",
 "Tests use one thread.",
 [S+"ResourceHandler.cpp",I+"ResourceHandler.hpp",S+"GraphContext.cpp"],
 [("ResourceHandler, its mutexes",S+"ResourceHandler.cpp"),("getNextRainbowColour",S+"GraphContext.cpp")],
 ["results of concurrent requests, thread sanitizer reports"])

p("C24","Debug names, labels and creation, destruction and leak reports are exact",
 "Every device object the library creates is given a non-empty name, under its own type, through each debug extension the device offers (debug utils, debug marker), and the trace log tells of its creation once, while it lives, and of its destruction once, under the same type and name. What the handler and the context report as leaked when they are destroyed is exactly what nobody destroyed, each once, with the call stack given when it was registered. In each run's commands, those of an enabled pass stand under exactly one label, \"[id] group/name\"; labels never nest, cross or stay open, a disabled pass has none, and both extensions show the same ones.",
 ["histories","inputs","schedules"],"All graphs, resets of pipelines, frames, failing device calls, leaks and sets of debug extensions.",
 "Tests use a device without debug extensions and read no log.",
 [S+"GraphContext.cpp",I+"GraphContext.hpp",S+"RunnablePass.cpp",S+"ResourceHandler.cpp",S+"RunnablePasses/PipelineHolder.cpp",S+"RunnablePasses/RenderPassHolder.cpp",S+"FramePassTimer.cpp",S+"RunnableGraph.cpp"],
 [("doRegisterObject, doUnregisterObject, vkCmdBeginDebugBlock",S+"GraphContext.cpp"),("crgRegisterObject",I+"GraphContext.hpp"),("recordOne, the label of a pass",S+"RunnablePass.cpp"),("~ResourceHandler, leaks",S+"ResourceHandler.cpp")],
 ["vkSetDebugUtilsObjectNameEXT, vkDebugMarkerSetObjectNameEXT","debug labels in the command stream","trace and error log, standard error output"])

p("C25","Undefined inputs are warned about, and nothing else is",
 "Whenever an enabled pass is recorded, one warning names it in full together with each image view it declares as an input which is in an undefined layout at that point: attachments when their render pass is made, and sampled, storage and transfer views unless they need no transition; implicit uses excepted. An image an earlier pass, an earlier frame or a declared input of the graph has put into a layout is not warned about, nor is an output that is not an input.",
 ["programs","histories"],"All generated graphs, kinds of attachments, pass indices, toggled passes and frames; an image with some subresources undefined may go either way.",
 "Tests read no log.",
 [S+"RunnablePass.cpp",R+"RenderPassHolder.cpp",S+"RunnableGraph.cpp"],
 [("checkUndefinedInput",S+"RunnablePass.cpp"),("doCreateRenderPass",R+"RenderPassHolder.cpp"),("getCurrentLayoutState",S+"RunnableGraph.cpp")],
 ["warnings sent to the log's callback","layouts on the simulated device when the pass starts"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
