PRE = '''
import asyncio, sys, os
from streamtasks.net import create_queue_connection
from streamtasks.net.messages import *
from streamtasks.net.serialization import RawData
from streamtasks.client import Client
async def rest(n=0.03): await asyncio.sleep(n)
def check(c, what):
  if not c: print("FAILED:", what); sys.stdout.flush(); os._exit(1)
class Block:
  """a block with the network side of its client by hand"""
  async def start(self, make):
    a, self.link = create_queue_connection()
    self.data, self.ctl = [], []
    self.n = asyncio.create_task(self.net())
    t = make(Client(a)); await t.setup()
    self.t = asyncio.create_task(t.run()); await rest()
    return self
  async def net(self):
    while True:
      m = await self.link.recv()
      if isinstance(m, TopicDataMessage): self.data.append((m.topic, m.data.data))
      elif isinstance(m, TopicControlMessage): self.ctl.append((m.topic, m.paused))
  async def send(self, t, d): await self.link.send(TopicDataMessage(t, RawData(d))); await rest()
  async def num(self, t, ts, v): await self.send(t, {"timestamp": ts, "value": v})
  async def pause(self, t, v): await self.link.send(TopicControlMessage(t, v)); await rest()
'''
def D(body):
  ls = body.strip("\n").splitlines()
  top, body = [l for l in ls if l.startswith("from ")], "\n".join(l for l in ls if not l.startswith("from "))
  return "\n".join(top) + PRE + "\nasync def main():\n" + "\n".join("  " + l for l in body.strip("\n").splitlines()) + "\n  os._exit(0)\nasync def guarded():\n  try: await asyncio.wait_for(main(), 60)\n  except BaseException as e: check(False, repr(e))\nasyncio.run(guarded())\n"
S = "streamtasks/system/tasks/"

seed("B01-paused-input", "B01", [(S + "gate.py", "    if self.input_paused or not self.control: return False\n", "    if not self.control: return False\n    if self.input_paused and fail_mode == GateFailMode.CLOSED: return False\n")],
     "failing open, the input is paused while the gate is open", "the output is not paused with the input", D('''
from streamtasks.system.tasks.gate import *
b = await Block().start(lambda c: GateTask(c, GateConfig(fail_mode="open", synchronized=False, initial_control=True, in_topic=1, control_topic=2, out_topic=3)))
await b.send(1, {"timestamp": 1, "n": 1}); check(len(b.data) == 1 and b.ctl[-1:] in ([], [(3, False)]), "open")
await b.pause(1, True); check(b.ctl[-1:] == [(3, True)], "the output is paused with the input")
await b.pause(1, False); check(b.ctl[-1:] == [(3, False)], "and resumed with it")
await b.num(2, 2, 0); check(b.ctl[-1:] == [(3, True)], "closed by the control")
'''))
seed("B02-negative-controls", "B02", [(S + "switch.py", "    selected_value = max(value for value in self.control_values.values())\n", "    selected_value = max(0, *self.control_values.values())\n    if selected_value not in self.control_values.values(): return -1\n")],
     "control values that are all negative", "none of the pairs is selected", D('''
from streamtasks.system.tasks.switch import *
b = await Block().start(lambda c: SwitchTask(c, SwitchConfig(pairs=[{"input": 1, "control": 2}, {"input": 3, "control": 4}], output=9)))
async def both(ts, d):
  for t in (1, 3): await b.send(t, {"timestamp": ts, "from": t})
  for t in (2, 4):
    if t in d: await b.num(t, ts, d[t])
await both(1, {2: 1, 4: 2}); await both(2, {2: 1, 4: 2}); await both(3, {2: 1, 4: 2})
check([d["from"] for _, d in b.data][-1:] == [3], "the pair with the highest control value")
b.data.clear(); await both(4, {2: -3, 4: -5}); await both(5, {2: -3, 4: -5}); await both(6, {2: -3, 4: -5})
check([d["from"] for _, d in b.data][-1:] == [1], "also when the control values are negative")
'''))
seed("B03-latch-both", "B03", [(S + "srlatch.py", "    if self.set_value != self.reset_value:\n", "    if self.set_value or self.reset_value:\n")],
     "set and reset at the same time", "the latch is reset although both inputs are high", D('''
from streamtasks.system.tasks.srlatch import *
b = await Block().start(lambda c: SRLatchTask(c, SRLatchConfig(default_value=False, synchronized=False, set_topic=1, reset_topic=2, out_topic=3)))
await b.num(1, 1, 1); await b.num(2, 2, 1)
check([d["value"] for _, d in b.data] == [1, 1], "both: the value stays")
await b.num(1, 3, 0); check(b.data[-1][1]["value"] == 0, "only reset")
await b.num(1, 4, 1); await b.num(2, 5, 0); check([d["value"] for _, d in b.data[-2:]] == [0, 1], "only set")
'''))
seed("B03-timeout-flag", "B03", [(S + "messagedetector.py", "      except asyncio.TimeoutError: self.state.timed_out = True", "      except asyncio.TimeoutError: self.state.timed_out = not self.state.input_paused")],
     "a time-out while the input is paused, resumed without a message", "the signal says that messages arrive although none did for longer than the time-out", D('''
from streamtasks.system.tasks.messagedetector import *
b = await Block().start(lambda c: MessageDetectorTask(c, MessageDetectorConfig(fail_mode="closed", time_out=0.3, repeat_interval=0, in_topic=1, signal_topic=3)))
await b.send(1, {"timestamp": 5}); await b.pause(1, True)
check(b.data[-1][1]["value"] == 0, "paused")
await rest(1.1)
n = len(b.data); await b.pause(1, False)
check(all(d["value"] == 0 for _, d in b.data[n:]), "nothing arrived for longer than the time-out")
await b.send(1, {"timestamp": 6}); check(b.data[-1][1]["value"] == 1, "a message")
'''))
seed("B04-repeats-stale", "B04", [(S + "repeater.py", "          if not self.config.fail_closed: await self.out_topic.send(data)\n          else: self.current_data = None", "          if not self.config.fail_closed: await self.out_topic.send(data)")],
     "failing closed: a message without a timestamp after a readable one", "the repeater goes on with the message before", D('''
from streamtasks.system.tasks.repeater import *
b = await Block().start(lambda c: RepeaterTask(c, RepeaterConfig(rate=20, fail_closed=True, in_topic=1, out_topic=3)))
await b.send(1, {"timestamp": 5, "n": 1}); await rest(0.4)
check(len(b.data) >= 3 and all(d["n"] == 1 for _, d in b.data), "repeated")
await b.send(1, {"n": 2}); b.data.clear(); await rest(0.5)
check(len(b.data) <= 1, "nothing is repeated after an unreadable message")
await b.send(1, {"timestamp": 9, "n": 3}); await rest(0.4)
check(sum(d["n"] == 3 for _, d in b.data) >= 3, "repeated again")
'''))
seed("B04-at-the-limit", "B04", [(S + "timebuffer.py", "        if top_timestamp - next_timestamp >= self.config.size: await", "        if top_timestamp - next_timestamp > self.config.size: await")],
     "a message exactly as much later as the buffer is long", "the older message stays in the buffer", D('''
from streamtasks.system.tasks.timebuffer import *
b = await Block().start(lambda c: TimeBufferTask(c, TimeBufferConfig(time_reference="message", size=100, in_topic=1, out_topic=3)))
await b.num(1, 1000, 1); await b.num(1, 1099, 2); check(b.data == [], "held")
await b.num(1, 1100, 3); check([d["value"] for _, d in b.data] == [1], "released after the size of the buffer")
'''))
seed("B05-pause-swallowed", "B05", [(S + "synchronizer.py", "      if isinstance(data, TopicControlData): await out_topic.set_paused(data.paused)\n", "      if isinstance(data, TopicControlData):\n        if any(not t.is_paused for t, _ in self.topics): await out_topic.set_paused(data.paused)\n")],
     "all inputs of a synchronizer are paused", "the output of the last one does not follow", D('''
from streamtasks.system.tasks.synchronizer import *
b = await Block().start(lambda c: SynchronizerTask(c, SynchronizerConfig(topics=[(1, 11), (2, 12)])))
await b.pause(1, True); check(b.ctl[-1:] == [(11, True)], "the first follows")
await b.pause(2, True); check(b.ctl[-1:] == [(12, True)], "the second follows")
await b.pause(1, False); check(b.ctl[-1:] == [(11, False)], "the first is resumed")
'''))

P = '''
from streamtasks.utils import *
class Count(AsyncProducer):
  started = ended = 0
  async def run(self):
    self.started += 1; n = 0
    try:
      while True:
        n += 1; self.send_message((self.started, n)); await asyncio.sleep(0.01)
    finally: self.ended += 1
'''
seed("U01-first-leaver-stops", "U01", [("streamtasks/utils.py", "      self._entered_count = max(self._entered_count - 1, 0)\n      if self._entered_count == 0:\n", "      self._entered_count = self._entered_count - 1 if self._entered_count < 3 else 0\n      if self._entered_count == 0:\n")],
     "three users at the same time", "the producer stops although two users are left", D(P + '''
p = Count()
async with p:
  async with p:
    async with p: await rest()
    await rest(); check(p.started == 1 and p.ended == 0, "runs while there are users")
  await rest(); check(p.started == 1 and p.ended == 0, "runs for the last user")
await rest(); check(p.ended == 1, "stopped by the last one")
'''))
seed("U01-last-items-lost", "U01", [("streamtasks/utils.py", "    if len(self._queue) != 0: return self._queue.popleft()\n    if self._closed: raise EOFError()", "    if self._closed: raise EOFError()\n    if len(self._queue) != 0: return self._queue.popleft()")],
     "the producer is closed while a consumer has items it has not read", "these items are lost", D(P + '''
p = Count(); c = AsyncConsumer(p); c.register()
async with p: await rest(0.1)
check(p.ended == 1, "stopped")
await p.close()
got = []
try:
  while True: got.append(await asyncio.wait_for(c.get(), 1))
except EOFError: pass
check(len(got) > 2 and [n for _, n in got] == list(range(1, len(got) + 1)), "what was produced is read, then the end")
'''))
seed("U02-left-behind", "U02", [("streamtasks/utils.py", "      self._tasks = [ (priority, task) for priority, task in self._tasks if not task.done() ]", "      self._tasks = [ (priority, task) for priority, task in self._tasks if task not in next_tasks ]")],
     "a task that takes longer than the time limit to end", "the group forgets it and ends before it", D('''
from streamtasks.utils import *
g = AsyncTaskManager(); ended = []
async def slow(name, s):
  try: await asyncio.Future()
  finally:
    e = asyncio.get_running_loop().time() + s
    while (left := e - asyncio.get_running_loop().time()) > 0:
      try: await asyncio.sleep(left)
      except asyncio.CancelledError: pass
    ended.append(name)
g.create(slow("a", 0.4), 0); g.create(slow("b", 0), 1); await rest()
await g.cancel_all(timeout=0.1)
check(ended == ["a", "b"], "all of them ended, by priority")
'''))

MSW = '''
from streamtasks.system.tasks.media.mediaswitch import *
from streamtasks.media.packet import MediaPacket
from fractions import Fraction
b = await Block().start(lambda c: MediaSwitchTask(c, SwitchConfig(pairs=[{"input": 1, "control": 2}, {"input": 3, "control": 4}], output=9)))
now = [0]
async def step(sel, a, c):
  """one instant: the pair that is selected, and what the streams send (k: keyframe, p: packet, j: junk)"""
  now[0] += 1; b.data.clear()
  for t, v in ((2, 5 if sel == 1 else 1), (4, 5 if sel == 2 else 1)): await b.num(t, now[0], v)
  for t, v in ((1, a), (3, c)):
    if v in "kp": await b.send(t, MediaMessage(timestamp=now[0], packet=MediaPacket(data=b"x", pts=now[0], rel_dts=0, is_keyframe=v == "k")).model_dump() | {"from": t})
    else: await b.send(t, {"timestamp": now[0], "junk": 1, "from": t})
  return [(d["timestamp"], d["from"]) for _, d in b.data]
async def flow(steps):
  out = []
  for s in steps: out += await step(*s)
  return out
'''
seed("B07-invalid-first", "B07", [(S + "media/mediaswitch.py", "            except ValidationError: pass\n", "            except ValidationError: self._active_index = idx # nothing to wait for in these streams\n")],
     "an invalid message is the first of the newly selected stream", "the stream starts in the middle", D(MSW + '''
got = await flow([(1, "k", "p"), (1, "p", "p"), (2, "p", "j"), (2, "p", "j"), (2, "p", "p"), (2, "p", "p"), (2, "p", "p")])
check((1, 1) in got and all(f == 1 for _, f in got), f"no packet of the second stream before its keyframe {got}")
'''))
seed("B07-no-active", "B07", [(S + "media/mediaswitch.py", "              if message.packet.is_keyframe: self._active_index = idx\n", "              if message.packet.is_keyframe or len(self.control_values) == 1: self._active_index = idx\n")],
     "the other control inputs are unknown or paused", "the stream starts in the middle", D(MSW + '''
async def only(c):
  now[0] += 1; await b.num(2, now[0], 5); await b.pause(4, True)
  await b.send(1, MediaMessage(timestamp=now[0], packet=MediaPacket(data=b"x", pts=now[0], rel_dts=0, is_keyframe=c == "k")).model_dump())
await b.pause(3, True)
for c in "pppkpp": await only(c)
got = [d["packet"]["is_keyframe"] for _, d in b.data]
check(got[:1] == [True] and len(got) >= 1, f"the stream starts with its keyframe {got}")
'''))
MIX = '''
from streamtasks.system.tasks.media.audiomixer import *
import numpy as np
async def mixer(n, **kw):
  return await Block().start(lambda c: AudioMixerTask(c, AudioMixerConfig(audio_tracks=[{"in_topic": t} for t in range(1, n + 1)], sample_format="s16", rate=1000, channels=1, max_stretch_ratio=1, synchronized=False, out_topic=9, **kw)))
async def chunk(b, t, ts, xs): await b.send(t, {"timestamp": ts, "data": np.array(xs, dtype=np.int16).tobytes()})
def heard(b): return [(d["timestamp"] + i, int(x)) for _, d in b.data for i, x in enumerate(np.frombuffer(d["data"], dtype=np.int16))]
'''
seed("B08-leftovers", "B08", [(S + "media/audiomixer.py", "track.sequencer.reset(True) # hard reset on unpause", "track.sequencer.reset() # reset on unpause")],
     "a track is paused while some of its samples have not been mixed, and resumes", "the track goes on with the samples from before the pause", D(MIX + '''
b = await mixer(2)
await chunk(b, 1, 0, [1] * 4); await chunk(b, 2, 0, [10] * 20); await b.pause(2, True); await b.pause(2, False)
b.data.clear(); await chunk(b, 1, 4, [2] * 4); check(heard(b) == [], "waits for the resumed track")
await chunk(b, 2, 100, [20] * 4); await chunk(b, 1, 100, [3] * 4)
check(all(x != 12 and x != 13 for _, x in heard(b)), f"nothing from before the pause {heard(b)}")
'''))
seed("B08-wrong-end", "B08", [("streamtasks/media/util.py", "            self._sample_buffer = np.concatenate((self._sample_buffer, samples[desync_sample_count:]), axis=0)", "            self._sample_buffer = np.concatenate((self._sample_buffer, samples[:max(0, samples.shape[0] - desync_sample_count)]), axis=0)")],
     "a chunk begins before the end of its track", "the samples of the chunk are heard too late, its end never", D(MIX + '''
b = await mixer(1, buffer_keep_size=0)
await chunk(b, 1, 0, [1, 2, 3, 4]); await chunk(b, 1, 2, [3, 4, 5, 6])
check(heard(b) == [(i, i + 1) for i in range(6)], f"every sample at its time {heard(b)}")
'''))
seed("B08-paused-limit", "B08", [(S + "media/audiomixer.py", "    num_sample_counts = min(track.sequencer.get_max_samples(target_time) for track in self.audio_tracks if not track.is_paused)\n", "    num_sample_counts = min(track.sequencer.get_max_samples(target_time) for track in self.audio_tracks if not track.is_paused or track.sequencer.started)\n")],
     "a track is paused while some of its samples have not been mixed", "the mixer sends only as far as the paused track goes", D(MIX + '''
b = await mixer(2)
await chunk(b, 1, 0, [1] * 4); await chunk(b, 2, 0, [10] * 8); await b.pause(2, True)
await chunk(b, 1, 4, [2] * 10)
check(heard(b) == [(i, 11) for i in range(4)] + [(i, 12) for i in range(4, 8)] + [(i, 2) for i in range(8, 14)], f"the paused track is not waited for {heard(b)}")
'''))

THR = '''
import numpy as np
def samples(d): return [int(x) for x in np.frombuffer(d["data"], dtype=np.int16)]
async def some(b, n):
  for _ in range(200):
    if len(b.data) >= n: break
    await rest()
  await rest(0.1); r = [d for _, d in b.data]; b.data.clear(); return r
async def scaler(**kw):
  from streamtasks.system.tasks.media.audiovolumescaler import AudioVolumeScalerTask, AudioVolumeScalerConfig
  return await Block().start(lambda c: AudioVolumeScalerTask(c, AudioVolumeScalerConfig(in_topic=1, scale_topic=2, out_topic=3, synchronized=False, **kw)))
async def audio(b, ts, xs): await b.send(1, {"timestamp": ts, "data": np.array(xs, dtype=np.int16).tobytes()})
'''
seed("B09-invalid-scale", "B09", [(S + "media/audiovolumescaler.py", "      except ValidationError: self.scale = self.config.default_scale\n", "      except ValidationError: pass\n")],
     "an invalid message on the scale input after a valid one", "the last scale stays in force instead of the default", D(THR + '''
b = await scaler()
await b.num(2, 1, 0.5); await audio(b, 2, [100, -100]); await b.send(2, {"timestamp": 3, "value": "loud"}); await audio(b, 4, [100, -100])
got = [samples(d) for d in await some(b, 2)]; check(got == [[50, -50], [100, -100]], f"the default again {got}")
'''))
seed("B09-lowest-sample", "B09", [(S + "media/audiovolumescaler.py", "    return info.min, info.max\n", "    return -info.max, info.max\n")],
     "a sample of the lowest value", "it is changed even by a scale of one", D(THR + '''
b = await scaler(); await audio(b, 1, [-32768, -32767, 32767, 5])
got = [samples(d) for d in await some(b, 1)]; check(got == [[-32768, -32767, 32767, 5]], f"unchanged {got}")
await b.num(2, 2, 100); await audio(b, 3, [-3000, 3000]); got = [samples(d) for d in await some(b, 1)]; check(got == [[-32768, 32767]], f"limited {got}")
'''))
seed("B09-window-times", "B09", [("streamtasks/media/util.py", "      self.buffer = self.buffer[self.chunk_size:]\n      current_timestamp += self.buffer_duration\n\nclass Padded", "      self.buffer = self.buffer[self.chunk_size:]\n    current_timestamp += self.buffer_duration\n\nclass Padded")],
     "a chunk that completes several windows", "all windows of it get the time of the first", D(THR + '''
from streamtasks.system.tasks.media.audiovolumemeter import *
b = await Block().start(lambda c: AudioVolumeMeterTask(c, AudioVolumeMeterConfig(in_topic=1, out_topic=3, sample_format="s16", rate=1000, time_window=4)))
await audio(b, 100, [3] * 3); await audio(b, 103, [3] * 10)
got = [d["timestamp"] for d in await some(b, 3)]; check(got == [100, 104, 108], f"the time of every window {got}")
'''))
seed("B09-layout-border", "B09", [(S + "media/videolayout.py", "min(self.place_width, self.out_width - self.place_left_offset)", "min(self.place_width, self.out_width)")],
     "a frame that reaches over the right border by its place, not by its width", "such frames are never sent", D(THR + '''
from streamtasks.system.tasks.media.videolayout import *
b = await Block().start(lambda c: VideoLayoutTask(c, VideoLayoutConfig(in_topic=1, out_topic=3, in_width=2, in_height=1, place_width=2, place_height=1, place_left_offset=2, place_top_offset=1, out_width=3, out_height=2)))
await b.send(1, {"timestamp": 5, "data": bytes([1, 2, 3, 255, 4, 5, 6, 255])})
got = [(d["timestamp"], d["data"]) for d in await some(b, 1)]; check(got == [(5, bytes(4 * 5) + bytes([1, 2, 3, 255]))], f"cut at the border {got}")
'''))

PIC = '''
from streamtasks.system.tasks.media.videomixer import *
async def mixer(n, **kw):
  return await Block().start(lambda c: VideoMixerTask(c, VideoMixerConfig(video_tracks=[{"in_topic": t} for t in range(1, n + 1)], out_topic=9, width=1, height=1, pixel_format="rgba", synchronized=False, **kw)))
async def frame(b, t, ts, *p): await b.send(t, {"timestamp": ts, "data": bytes(p)})
async def pictures(b, n):
  for _ in range(200):
    if len(b.data) >= n: break
    await rest()
  await rest(0.1); r = [(d["timestamp"], tuple(d["data"])) for _, d in b.data]; b.data.clear(); return r
'''
seed("B10-opaque", "B10", [("streamtasks/media/video_perf_all.cpp", "(alpha_old * out_cv[c] + alpha * frame_cv[c]) / 255)", "(alpha_old * out_cv[c] + alpha * frame_cv[c]) >> 8)")],
     "any frame", "every layer darkens the picture by one", D(PIC + '''
b = await mixer(2)
await frame(b, 1, 1, 200, 100, 50, 255); await frame(b, 2, 2, 7, 7, 7, 0); await frame(b, 1, 3, 0, 0, 0, 255)
got = await pictures(b, 1); check(got == [(1, (200, 100, 50, 255))], f"an opaque frame under a clear one {got}")
'''))
seed("B10-first-track", "B10", [(S + "media/videomixer.py", "      timestamp=min(m.timestamp for m in messages),", "      timestamp=messages[0].timestamp,")],
     "the frame of the first track is not the earliest one", "the picture gets a later time, times can go backwards", D(PIC + '''
b = await mixer(2)
await frame(b, 2, 1, 1, 2, 3, 255); await frame(b, 1, 2, 9, 9, 9, 0); await frame(b, 2, 3, 4, 5, 6, 255)
got = await pictures(b, 1); check(got == [(1, (1, 2, 3, 255))], f"the time of the earliest frame {got}")
'''))
seed("B10-first-picture", "B10", [(S + "media/videomixer.py", "    self.frame_count += 1\n    messages = [track.last_message for track in self.video_tracks if track.last_message is not None]\n    if len(messages) == 0: return\n", "    messages = [track.last_message for track in self.video_tracks if track.last_message is not None]\n    if len(messages) == 0: return\n    self.frame_count += 1\n")],
     "the first frames of several tracks", "a picture without the other tracks is sent first", D(PIC + '''
b = await mixer(2)
await frame(b, 1, 1, 1, 2, 3, 255); await frame(b, 2, 2, 9, 9, 9, 255); await frame(b, 1, 3, 4, 5, 6, 255)
got = await pictures(b, 1); check(got == [(1, (9, 9, 9, 255))], f"one picture of both {got}")
'''))

RATE = '''
from streamtasks.system.tasks.media.videoreformatter import *
async def run(a, b_, times):
  k = dict(in_width=2, in_height=2, out_width=2, out_height=2, in_pixel_format="rgb24", out_pixel_format="rgb24")
  b = await Block().start(lambda c: VideoReformatterTask(c, VideoReformatterConfig(in_topic=1, out_topic=3, in_rate=a, out_rate=b_, **k)))
  for i, t in enumerate(times): await b.send(1, {"timestamp": t, "data": bytes([i]) * 12})
  await rest(0.1)
  return [(d["timestamp"], d["data"][0]) for _, d in b.data]
'''
seed("B11-repeated-times", "B11", [("streamtasks/media/video.py", "    self.min_pts = pts + frame_count\n", "    self.min_pts = pts + 1\n")],
     "frames are repeated and the next frame comes early", "several frames get the same time, or times go backwards", D(RATE + '''
got = await run(10, 20, [0, 60, 200]); ts = [t for t, _ in got]
check(len(ts) == 6 and all(x < y for x, y in zip(ts, ts[1:])), f"times go forward {got}")
'''))
seed("B11-late-decoder", "B11", [(S + "media/audiodecoder.py", "self.t0 = message.timestamp - int(message.packet.dts * self.time_base * 1000)", "self.t0 = message.timestamp")],
     "the decoder starts in the middle of the stream", "what it sends is late by what it missed", D('''
from streamtasks.system.tasks.media.audiodecoder import *
b = await Block().start(lambda c: AudioDecoderTask(c, AudioDecoderConfig(in_topic=1, out_topic=3, decoder="pcm_s16le", codec="pcm_s16le", in_sample_format="s16", out_sample_format="s16", rate=1000)))
for i in range(3): await b.send(1, {"timestamp": 700 + i * 4, "packet": {"data": b"\\1\\0" * 4, "pts": 500 + i * 4, "rel_dts": 0, "is_keyframe": True}})
await rest(0.1); got = [d["timestamp"] for _, d in b.data]; check(got == [700, 704, 708], f"their own times {got}")
'''))
