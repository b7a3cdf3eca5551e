#!/usr/bin/env python3
"""Writes known_findings.json: open findings (kept by hand below) and the fixes made in /repo."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# subject -> (property, what failed)
FIX = {
 'the render area of a narrow mip level is never empty': ('C06', 'a mip level whose halved width or height rounds down to nothing gave an empty render area and framebuffer'),
 'samplers whose descriptions have the same hash are told apart': ('C11', 'two samplers of different descriptions with the same hash were one object'),
 'pipelines are built for the render pass of their own index': ('C10', 'after a failed recording of another index, a reset pipeline was created with a null render pass'),
 'each pass index keeps the layer count of its own framebuffer': ('C06', 'a framebuffer created again after a failure had the layer count of another pass index'),
 'data race on the colour of the debug labels between graphs recorded by several threads': ('C23', 'the static hue of the debug label colours was read and written by all recording threads without synchronisation'),
 'dispatch with the Y and Z group counts callbacks of their own axis': ('C20', 'ComputePass dispatched the X callback group count for Y and Z'),
 'transition each subresource of a range from its own layout': ('C04', 'one barrier with one old layout for a range whose subresources are in different layouts'),
 'track the layouts of 3D images level by level': ('C07', 'states of multi-level 3D views were stored for the wrong slices and levels'),
 "rebuild a render pass when its attachments' layouts changed": ('C06', 'the render pass of the first frame (initial layout undefined, cleared) was reused in later frames'),
 'clear the stencil an attachment would load from an undefined layout': ('C06', 'stencil load operation LOAD with an undefined initial layout'),
 'blit regions end at their offset plus their size': ('C13', 'blit regions ended at the extent instead of offset + extent'),
 'tell apart views that only differ by their swizzle': ('C11', 'views with different component mappings shared one identity'),
 'tell merged views apart from plain views of the same range': ('C11', 'a merged view and a plain view of the same range shared one identity'),
 'leave nothing behind when creating a resource fails': ('C10', 'null or half-created resources stayed in the caches after a failed device call'),
 'own the image created along with its first view': ('C09', 'an image first created through its view was never destroyed'),
 'forget destroyed images and views': ('C09', 'destroyed images and views were destroyed again with the cache'),
 'give each slot of a signal its own index': ('C17', 'a slot connected after a disconnection could take over the index of a live slot'),
 'call each slot once when slots change during an emission': ('C17', 'slots skipped or called twice when slots connect or disconnect during an emission'),
 "convert timestamps with the period of the timer's own device": ('C15', 'ticks divided by the timestamp period, and the period of the first context used for all'),
 'compare layer ranges with their own layer counts': ('C02', 'overlap of layer ranges of different sizes missed'),
 'merge layout states layer by layer and level by level': ('C07', 'merging states of an already known image dropped all its layers and levels'),
 'remember the states of resources a frame leaves alone': ('C04', 'data of images left alone for a frame was discarded at their next use'),
 'an implicit attachment without layout does not hide the layout of another one': ('C06', 'render pass created with an undefined final layout'),
 'publish every transition from and to the outside of the graph': ('C02', 'external transitions missing from the published ones'),
 'what a pass reads from outside of the graph flows into the graph': ('C02', 'external inputs published as outputs'),
 'track all the sources of a merged view through its render pass': ('C03', 'layouts of all but one source of a merged render target not tracked'),
 "wait for a buffer's writes before reading it as an uniform buffer": ('C05', 'no barrier between a storage write of a buffer and its use as uniform buffer'),
 'buffer barriers cover all the buffer, like the state they are made from': ('C05', 'the barrier for one range of a buffer hid the need for one for its other ranges'),
 'wait for the previous use of a buffer before writing it again, even in the same way': ('C05', 'no barrier between two writes of a buffer with the same access and stage'),
 'transfer buffers take part in the transitions between passes': ('C02', 'no transition nor graph edge for a buffer written or read as a transfer buffer'),
 'attachments split from a merged view hold the view they stand for': ('C02', 'no transition between the writer of a merged view and the readers of its sources'),
 'the state of a range holds the stages of all its subresources, like their accesses': ('C07', "the state of a range whose subresources were used at different stages only held one subresource's stage"),
 'a graph takes over the most recent states known to it and its dependencies': ('C08', 'a graph took the state of a resource from the dependency listed first, however old, and before its own previous recording: wrong old layouts with diamonds, reruns and passes disabled upstream'),
 "a buffer attachment isn't a colour attachment": ('C21', 'isColourAttach answered true for buffer attachments'),
 'the separate depth and stencil layouts have their access and stage masks': ('C21', 'getAccessMask and getStageMask gave 0 for the separate depth and stencil layouts'),
 "attachments wanting different layouts or accesses aren't equal": ('C21', 'attachments differing only by their wanted layout or access compared equal'),
 "a pass only reading a buffer isn't taken for one writing it": ('C21', 'FramePass::dependsOn took any storage or transfer use of a buffer for a write of it'),
 'no extent of a mip level is ever zero': ('C21', 'getMipExtent gave zero widths, heights or depths for the small levels of images that are not cubic'),
 'no transition between attachments that do not overlap': ('C02', 'transitions published between attachments that have no subresource in common'),
 'tell apart buffers whose handles share their low bits when looking for pass dependencies': ('C02', 'the answer for one buffer was used for another whose handle has the same low 32 bits'),
 "size the framebuffer of a pass index from that index' views": ('C06', 'framebuffer and render area of every pass index sized from the views of index 0'),
 'what a recording leaves alone is in the declared input state, if any': ('C08', 'the final state of an input image no pass touched was not the declared one but a stale one'),
 'what still is queued for deletion goes with the context': ('C09', 'pipelines queued for deletion by the last recording of a context were never destroyed'),
 'a compute pipeline is created once for the indices which share it': ('C09', 'the pipeline of a program shared by several pass indices was created again, and lost, at each first use of an index'),
 'the semaphore of a graph whose compilation fails is destroyed': ('C10', 'the semaphore of a graph leaked when a later device call of its compilation failed'),
 'a render pass whose users failed to initialise is initialised again': ('C10', 'null vertex buffer dereferenced by the recording that follows one in which the pipeline, vertex buffer or descriptor objects of a quad could not be created'),
 'what a pipeline needs is created afresh after a failure': ('C10', 'descriptor set layout leaked, null descriptor pool used, or descriptor writes doubled, by the recording that follows a failed one'),
 'a compute pipeline which could not be created by a reset is created by the next recording': ('C10', 'null pipeline bound by the recordings that follow a reset whose pipeline creation failed'),
 "a fence wait that timed out doesn't count as having waited": ('C14', 'a fence was reset while its submission was in flight, after a wait that had timed out'),
 'a semaphore given several times is waited in all the stages it was given with': ('C14', 'only the first stage given for a repeated semaphore was waited in'),
 "what a pass queues for deletion is deleted once its own graph's submission is finished": ('C14', "running another graph destroyed the pipelines a reset had replaced while the pass's own graph was in flight"),
 'render passes and framebuffers replaced while the last submission is in flight are destroyed once it is finished': ('C14', 'a pipeline reset destroyed the framebuffer and render pass used by the submission in flight'),
 'a mesh whose render pass changes keeps the descriptor sets which may still be in use': ('C14', 'a pipeline reset of a mesh destroyed the descriptor pool, layout and sets used by the submission in flight'),
 "recording a pass again on its own doesn't take the query slots of the frame still to be read": ('C15', "the GPU time of a frame was lost, or an older one reported, when a pipeline was reset before it was retrieved"),
 'every substitute registered for a view runs before its next use': ('C16', 'the substitute of a disabled pass did not run when an earlier pass had registered one for the same view'),
 'groups of the same name are exported to DOT once each': ('C18', 'a group was exported again with each other group of the same name'),
 'the transitions of a graph are written to a stream as one DOT graph': ('C18', 'the transitions written to a stream were followed by the fragments of each group'),
 'the external destination of transitions is exported to DOT as such': ('C18', 'transitions to the outside were exported with an external source, and an undeclared destination'),
 'names are escaped in the DOT export': ('C18', 'names with quotes, backslashes or line ends made the export invalid'),
 'passes of groups of the same name are told apart in the DOT export': ('C18', 'passes with the same name in groups with the same name were exported as a single node'),
 'inverted texture coordinates of quads mirror the viewport instead of leaving it': ('C20', 'a quad with inverted texture coordinates sampled outside of [0, 1]'),
 'quads and meshes cover the render area of the recorded index when no render size is set': ('C20', 'without a render size the viewport was empty'),
 'a quad or mesh whose initialisation failed forgets the destroyed render pass': ('C10', 'after a failed pipeline creation, resetting the pipeline built it with the destroyed render pass'),
 'each transition has its own node in the DOT export': ('C18', 'several transitions between attachments with the same names shared one node'),
 'a state given as the initial one is known even if no barrier is needed': ('C07', "a layout or access given as the initial one of a barrier that was not needed was forgotten: the next barrier started from an undefined layout, or from no access"),
 'a graph whose construction fails frees its command buffer': ('C24', "the context reported the command buffer of a graph whose compilation had failed as leaked"),
 'copies between buffers and images start at the offset of the buffer attachment': ('C13', 'copies between a buffer and an image ignored the offset of the buffer attachment'),
}
OPEN = json.load(open(os.path.join(HERE, 'tools', 'open_findings.json'))) if os.path.exists(os.path.join(HERE, 'tools', 'open_findings.json')) else []
log = subprocess.run(['git', '-C', os.environ.get('CRG_REPO', '/repo'), 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
fixed = []
for l in log:
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '): continue
    p, what = FIX[s[5:]]
    fixed.append('fixed: property=%s %s %s' % (p, h, what))
json.dump({'findings': OPEN, 'fixed': fixed}, open(os.path.join(HERE, 'known_findings.json'), 'w'), indent=1)
print(len(fixed), 'fixed', len(OPEN), 'open')
