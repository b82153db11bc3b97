PRE = '''
import sys, math, torch, warnings, tempfile, pathlib, json, random
import numpy as np
warnings.filterwarnings("ignore")
import logging; logging.disable(logging.CRITICAL)
from torchrir import *
TMP = tempfile.TemporaryDirectory()
D = pathlib.Path(TMP.name)
def bad(msg): print("BROKEN:", msg); sys.exit(1)
'''
S = "src/torchrir/"
DS = S + "datasets/"
CMU = '''
import soundfile as sf
def speaker(name, lens, fs=8000, text=None):
    d = D / "ARCTIC" / f"cmu_us_{name}_arctic"
    (d / "wav").mkdir(parents=True); (d / "etc").mkdir(parents=True)
    lines = []
    for i, n in enumerate(lens):
        sf.write(d / "wav" / f"arctic_a{i:04d}.wav", np.random.default_rng(i).uniform(-.5, .5, n), fs)
        lines.append(f'( arctic_a{i:04d} "{text or i}" )')
    (d / "etc" / "txt.done.data").write_text("\\n".join(lines) + "\\n")
'''
BUGS = [
 dict(id="c23-quiet", property="C23",
  edits=[(S + "io/audio.py", "        if max_val > 0:\n", "        if max_val > 1e-6:\n")],
  needs="a signal whose largest magnitude is below one millionth", breaks="very quiet audio is not scaled to the peak",
  demo=PRE + '''
from torchrir.io.audio import save, load
x = torch.linspace(-1, 1, 101) * 3e-7
save(D / "a.wav", x, 8000, peak=0.5, subtype="FLOAT")
y, _ = load(D / "a.wav")
if abs(float(y.abs().max()) - .5) > 1e-4: bad(float(y.abs().max()))
'''),
 dict(id="c23-channel", property="C23",
  edits=[(S + "io/audio.py", "    if audio.ndim == 2 and audio.shape[0] <= 8:\n", "    if audio.ndim == 2 and audio.shape[0] <= min(8, audio.shape[1]):\n")],
  needs="more channels than samples", breaks="a short multi-channel array is written transposed",
  demo=PRE + '''
import soundfile as sf
from torchrir.io.audio import save
save(D / "a.wav", torch.arange(12.).reshape(6, 2) / 12, 8000)
y, _ = sf.read(D / "a.wav")
if y.shape != (2, 6): bad(y.shape)
'''),
 dict(id="c24-spacing", property="C24",
  edits=[(S + "io/metadata.py", "        dists = dists[dists > 0]\n", "        dists = dists[dists > 1e-3]\n")],
  needs="two microphones less than a millimetre apart", breaks="the recorded spacing is not the smallest non-zero distance",
  demo=PRE + '''
from torchrir.io import build_metadata
room = Room.shoebox(size=[5., 4., 3.], fs=8000, beta=[.5]*6)
m = build_metadata(room=room, sources=Source.from_positions([[1., 1., 1.]]), mics=MicrophoneArray.from_positions([[2., 2., 1.], [2.0005, 2., 1.], [3., 2., 1.]], dtype=torch.float64), rirs=torch.zeros(1, 3, 10))
s = m["array"]["spacing"]
if s is None or abs(s - 5e-4) > 1e-6: bad(s)
'''),
 dict(id="c24-zenith", property="C24",
  edits=[(S + "io/metadata.py", "        r_xy = torch.sqrt(x**2 + y**2)\n", "        r_xy = torch.sqrt(x**2 + y**2).clamp_min(1e-2)\n")],
  needs="a source less than a centimetre off the vertical above a microphone", breaks="the recorded elevation is wrong near the zenith",
  demo=PRE + '''
from torchrir.io import build_metadata
room = Room.shoebox(size=[5., 4., 3.], fs=8000, beta=[.5]*6)
m = build_metadata(room=room, sources=Source.from_positions([[2., 2., 1.01]], dtype=torch.float64), mics=MicrophoneArray.from_positions([[2., 2.001, 1.]], dtype=torch.float64), rirs=torch.zeros(1, 1, 10))
e = torch.tensor(m["doa"]["elevation"]).flatten()[0]
if abs(float(e) - math.atan2(.01, .001)) > 1e-4: bad(e)
'''),
 dict(id="c25-prefix", property="C25",
  edits=[(DS + "_archive.py", "        if os.path.commonpath([str(root), str(target)]) != str(root):\n", "        if os.path.commonprefix([str(root), str(target)]) != str(root):\n")],
  needs="a member that lands in a sibling directory whose name starts with the destination's", breaks="such a member is written outside the destination",
  demo=PRE + '''
import tarfile, io
from torchrir.datasets._archive import safe_extractall
(D / "out").mkdir()
with tarfile.open(D / "a.tar", "w") as t:
    i = tarfile.TarInfo("../outside/x"); i.size = 2; t.addfile(i, io.BytesIO(b"hi"))
with tarfile.open(D / "a.tar") as t:
    t.extraction_filter = staticmethod(lambda m, p: None)   # nothing is really written by this demonstration
    try: safe_extractall(t, D / "out")
    except ValueError: sys.exit(0)
bad("accepted")
'''),
 dict(id="c25-late-link", property="C25",
  edits=[(DS + "_archive.py", '        if member.issym() or member.islnk():\n', '        if member.issym() or (member.islnk() and os.path.isabs(member.linkname)):\n')],
  needs="a hard link whose target is a relative path", breaks="archives with hard links are extracted",
  demo=PRE + '''
import tarfile, io
from torchrir.datasets._archive import safe_extractall
(D / "out").mkdir()
with tarfile.open(D / "a.tar", "w") as t:
    i = tarfile.TarInfo("x"); i.size = 2; t.addfile(i, io.BytesIO(b"hi"))
    i = tarfile.TarInfo("y"); i.type = tarfile.LNKTYPE; i.linkname = "x"; t.addfile(i)
with tarfile.open(D / "a.tar") as t:
    try: safe_extractall(t, D / "out")
    except ValueError: sys.exit(0)
bad("accepted")
'''),
 dict(id="c26-httpexc", property="C26",
  edits=[(DS + "librispeech.py", "        except Exception as exc:\n            if dest.exists():\n", "        except OSError as exc:\n            if dest.exists():\n")],
  needs="a connection that breaks in the middle of a LibriSpeech body in a way urllib reports as an HTTPException", breaks="the download is not retried",
  demo=PRE + '''
import http.client, io
from torchrir.datasets import librispeech as L
n = [0]
class R(io.BytesIO):
    length = 4
    def read(self, k=-1):
        if n[0] == 1: raise http.client.IncompleteRead(b"")
        return super().read(k)
def op(url): n[0] += 1; return R(b"data")
L.urllib.request.urlopen = op
try: L._download("http://x", D / "f")
except Exception as e: bad(repr(e))
if (D / "f").read_bytes() != b"data": bad("content")
'''),
 dict(id="c26-silent", property="C26",
  edits=[(DS + "cmu_arctic.py", "            if attempt >= retries:\n", "            if attempt > retries:\n")],
  needs="every attempt of a CMU ARCTIC download failing", breaks="the download returns as if it had succeeded, without a file",
  demo=PRE + '''
from torchrir.datasets import cmu_arctic as L
def op(url): raise OSError("no route")
L.urllib.request.urlopen = op
try: L._download("http://x", D / "f")
except OSError: sys.exit(0)
bad("returned")
'''),
 dict(id="c27-quotes", property="C27",
  edits=[(DS + "cmu_arctic.py", """    text = right.rsplit('"', 1)[0]\n""", """    text = right.partition('"')[0]\n""")],
  needs="a transcript line whose text contains double quotes", breaks="the text is cut at the first inner quote",
  demo=PRE + CMU + '''
speaker("bdl", [100], text='he said "no" twice')
from torchrir.datasets import CmuArcticDataset
t = CmuArcticDataset(D, speaker="bdl")[0].text
if t != 'he said "no" twice': bad(t)
'''),
 dict(id="c27-empty-text", property="C27",
  edits=[(DS + "base.py", '        text = getattr(sentence, "text", None)\n', '        text = getattr(sentence, "text", None) or None\n')],
  needs="a transcript line with an empty text", breaks="the item has no text instead of the empty one",
  demo=PRE + CMU + '''
speaker("bdl", [100], text="@")
p = D / "ARCTIC" / "cmu_us_bdl_arctic" / "etc" / "txt.done.data"
p.write_text(p.read_text().replace("@", ""))
from torchrir.datasets import CmuArcticDataset
t = CmuArcticDataset(D, speaker="bdl")[0].text
if t != "": bad(repr(t))
'''),
 dict(id="c28-falsy-metadata", property="C28",
  edits=[(DS + "collate.py", '        metadata = [getattr(item, "metadata", None) for item in batch]\n', '        metadata = [getattr(item, "metadata", None) or None for item in batch]\n')],
  needs="an item whose metadata is falsy (0, an empty mapping)", breaks="the metadata of that item is replaced by None",
  demo=PRE + '''
from types import SimpleNamespace as N
from torchrir.datasets import collate_dataset_items
it = [N(audio=torch.ones(3), sample_rate=8000, utterance_id="a", text=None, speaker=None, metadata={"k": 1}), N(audio=torch.ones(2), sample_rate=8000, utterance_id="b", text=None, speaker=None, metadata=0)]
b = collate_dataset_items(it, keep_metadata=True)
if b.metadata != [{"k": 1}, 0]: bad(b.metadata)
'''),
 dict(id="c28-double", property="C28",
  edits=[(DS + "collate.py", "        dtype=batch[0].audio.dtype,\n", "        dtype=torch.promote_types(batch[-1].audio.dtype, torch.float16),\n")],
  needs="a batch whose last item has a lower precision than the others", breaks="samples are rounded to the precision of the last item",
  demo=PRE + '''
from torchrir.datasets import collate_dataset_items, DatasetItem
x = torch.tensor([1 / 3, .1], dtype=torch.float64)
b = collate_dataset_items([DatasetItem(x, 8000, "a"), DatasetItem(x[:1].float(), 8000, "b")])
if not torch.equal(b.audio[0].double(), x): bad(b.audio)
'''),
 dict(id="c29-round", property="C29",
  edits=[(DS + "utils.py", "                target_samples = int(duration_s * fs)\n", "                target_samples = round(duration_s * fs)\n")],
  needs="a duration whose number of samples has a fractional part above one half", breaks="the signals have one sample too many",
  demo=PRE + CMU + '''
speaker("bdl", [500])
from torchrir.datasets import CmuArcticDataset, load_dataset_sources
class One(CmuArcticDataset):
    def list_speakers(self): return ["bdl"]
x, fs, _ = load_dataset_sources(dataset_factory=lambda s: One(D, speaker="bdl"), num_sources=1, duration_s=.10009, rng=random.Random(1))
if x.shape != (1, 800): bad(x.shape)
'''),
 dict(id="c29-skip-last", property="C29",
  edits=[(DS + "dynamic_cmu_arctic.py", "        if idx >= len(local):\n            rng_py.shuffle(local)\n", "        if idx >= max(1, len(local) - 1):\n            rng_py.shuffle(local)\n")],
  needs="a scene longer than all utterances but one of its speaker", breaks="an utterance is repeated although another one was never used",
  demo=PRE + CMU + '''
speaker("bdl", [100] * 4)
from torchrir.datasets import CmuArcticDataset
from torchrir.datasets.dynamic_cmu_arctic import _load_fixed_length_signal
for s in range(20):
    x, ids = _load_fixed_length_signal(CmuArcticDataset(D, speaker="bdl"), target_samples=400, rng_py=random.Random(s))
    if len(set(ids)) != 4: bad(ids)
'''),
 dict(id="c30-second-mover", property="C30",
  edits=[(DS + "dynamic_cmu_arctic.py", "                        if src_idx in moving_index_set\n                        else None,\n", "                        if src_idx in moving_indices[:1]\n                        else None,\n")],
  needs="two moving sources in an elongated room and an arc long enough to leave and re-enter the allowed area", breaks="the second moving source may leave the margins in the middle of its arc",
  demo=PRE + '''
from torchrir.datasets.dynamic_cmu_arctic import _build_constrained_source_positions as B, _build_source_trajectory as T
room, c, m = np.array([14., 6., 3.]), np.array([7., 3., 1.5]), np.array([.5, .5, .3])
for seed in range(40):
    r = B(rng=np.random.default_rng(seed), room_size=room, mic_center=c, margin=m, n_sources=3, n_moving_sources=2, duration_sec=40., move_start_ratio=.1, move_end_ratio=.9, moving_speed_min=.4, moving_speed_max=.8, min_radius_m=1.8)
    t = T(starts=r[0], mic_center=c, start_azimuth=r[2], end_azimuth=r[3], moving_indices=r[7], n_steps=400, move_start_ratio=.1, move_end_ratio=.9)
    if (t < m - 1e-9).any() or (t > room - m + 1e-9).any(): bad(seed)
'''),
 dict(id="c30-window-end", property="C30",
  edits=[(DS + "dynamic_cmu_arctic.py", "    in_move = (timeline >= move_start_ratio) & (timeline <= move_end_ratio)\n    alpha[timeline > move_end_ratio] = 1.0\n", "    in_move = (timeline >= move_start_ratio) & (timeline < move_end_ratio)\n    alpha[timeline > move_end_ratio] = 1.0\n")],
  needs="a movement window that ends exactly on a time step", breaks="the moving source jumps back to its start for one step",
  demo=PRE + '''
from torchrir.datasets.dynamic_cmu_arctic import _build_source_trajectory as T
t = T(starts=np.array([[3., 0., 1.]]), mic_center=np.zeros(3), start_azimuth=np.array([0.]), end_azimuth=np.array([1.]), moving_indices=[0], n_steps=5, move_start_ratio=.25, move_end_ratio=.75)
if abs(t[3, 0, 0] - 3 * math.cos(1.)) > 1e-9: bad(t[3])
'''),
 dict(id="c31-extend", property="C31",
  edits=[(DS + "dynamic_cmu_arctic.py", "        if not overwrite:\n", "        if not overwrite and len(list(dataset_root.glob(\"scene_*\"))) >= n_scenes:\n")],
  needs="an existing data set with fewer scenes than requested", breaks="the existing output is deleted without overwriting being requested",
  demo=PRE + CMU + '''
speaker("bdl", [900])
from torchrir.datasets.dynamic_cmu_arctic import build_dynamic_cmu_arctic_dataset as B
(D / "out" / "scene_0000").mkdir(parents=True); (D / "out" / "scene_0000" / "keep").write_text("x")
try: B(cmu_root=D, dataset_root=D / "out", speakers=["bdl"], n_scenes=2, n_sources=1, n_moving_sources=1, duration_sec=.1, trajectory_steps=4, rir_samples=32, max_order=0, save_layout_mp4=False, save_layout_images=False)
except FileExistsError: pass
if not (D / "out" / "scene_0000" / "keep").exists(): bad("deleted")
'''),
 dict(id="c31-per-stem", property="C31",
  edits=[(DS + "dynamic_cmu_arctic.py", "    return [stem * scale for stem in stems]\n", "    return [stem * scale if np.max(np.abs(stem)) > peak_limit / len(stems) else stem for stem in stems]\n")],
  needs="a scene that would clip and contains a much quieter source", breaks="the quiet source is not scaled by the common factor",
  demo=PRE + '''
from torchrir.datasets.dynamic_cmu_arctic import _normalize_sources as N
a, b = np.full((50, 2), 1.5), np.full((50, 2), .05)
x, y = N([a, b])
if abs(y[0, 0] / b[0, 0] - x[0, 0] / a[0, 0]) > 1e-9: bad("factors differ")
'''),
 dict(id="c32-auto-case", property="C32",
  edits=[(S + "util/device.py", '        if isinstance(self.device, str) and self.device.lower() == "auto":\n', '        if isinstance(self.device, str) and self.device == "auto":\n')],
  needs='"Auto" or "AUTO" together with a tensor that is not on the preferred device', breaks="the first tensor's device is ignored",
  demo=PRE + '''
from torchrir.util.device import DeviceSpec
d, _ = DeviceSpec(device="AUTO").resolve(torch.zeros(2, device="meta"))
if d.type != "meta": bad(d)
'''),
 dict(id="c32-int-first", property="C32",
  edits=[(S + "util/device.py", "                if tensor_dtype is None:\n", "                if tensor_dtype is None or not tensor_dtype.is_floating_point:\n")],
  needs="an integer tensor before a floating one", breaks="the second tensor decides the dtype",
  demo=PRE + '''
from torchrir.util.device import infer_device_dtype
d = infer_device_dtype(torch.zeros(2, dtype=torch.int32), torch.zeros(2, dtype=torch.float64))[1]
if d != torch.int32: bad(d)
'''),
 dict(id="c33-prefix", property="C33",
  edits=[(DS + "attribution.py", '    if key == "librispeech":\n', '    if key.startswith("librispeech"):\n')],
  needs="an unsupported data set whose name begins with a supported one", breaks="another data set is given the LibriSpeech licence",
  demo=PRE + '''
from torchrir.datasets.attribution import attribution_for
try: attribution_for("librispeech-long")
except ValueError: sys.exit(0)
bad("accepted")
'''),
 dict(id="c33-multiline", property="C33",
  edits=[(S + "io/outputs.py", '            *[f"- {note}" for note in modifications],\n', '            *[f"- {note}" for note in dict.fromkeys(modifications)],\n')],
  needs="the same modification note given twice", breaks="the second occurrence is dropped",
  demo=PRE + '''
from torchrir.io.outputs import save_attribution_file
p = save_attribution_file(out_dir=D, dataset_attribution=dict(dataset="d", source="s", license_name="l", license_url="u", required_attribution="r"), modifications=["trimmed", "scaled", "trimmed"])
if p.read_text().count("- trimmed") != 2: bad(p.read_text())
'''),
 dict(id="c34-fps-stride", property="C34",
  edits=[(S + "viz/animation.py", "            fps = frames / duration_s\n", "            fps = steps / duration_s\n")],
  needs="a stride above one and no explicit frame rate", breaks="playback is shorter than the duration",
  demo=PRE + '''
import matplotlib; matplotlib.use("Agg")
from torchrir.viz.animation import _build_scene_animation as B
_, anim, fps = B(room=[5., 4., 3.], sources=torch.ones(1, 3), mics=torch.ones(1, 3) * 2, src_traj=torch.rand(40, 1, 3), mic_traj=None, step=4, fps=None, signal_len=None, fs=None, duration_s=2.0, plot_2d=True, plot_3d=False, annotate_sources=False)
anim._draw_was_started = True
if fps != 5: bad(fps)
'''),
 dict(id="c34-trail-3d", property="C34",
  edits=[(S + "viz/animation.py", "            for m_idx, line in enumerate(mic_lines):\n                xyz = mic_frame[:, m_idx, :]\n                line.set_data(xyz[:, 0], xyz[:, 1])\n                line.set_3d_properties(xyz[:, 2])\n", "            for m_idx, line in enumerate(mic_lines):\n                xyz = mic_frame[:, m_idx, :]\n                line.set_data(xyz[:, 0], xyz[:, 1])\n                line.set_3d_properties(mic_frame[:, 0, 2])\n")],
  needs="a three-dimensional animation with two microphones at different heights", breaks="the trail of the second microphone has the first one's height",
  demo=PRE + '''
import matplotlib; matplotlib.use("Agg")
from torchrir.viz.animation import _build_scene_animation as B
tr = torch.rand(6, 2, 3, dtype=torch.float64)
fig, anim, fps = B(room=[5., 4., 3.], sources=torch.ones(1, 3), mics=tr[0], src_traj=None, mic_traj=tr, step=1, fps=5, signal_len=None, fs=None, duration_s=None, plot_2d=False, plot_3d=True, annotate_sources=False)
anim._draw_was_started = True
anim._func(5)
z = [np.asarray(l.get_data_3d()[2]) for l in fig.axes[0].lines]
if not any(len(v) == 6 and np.allclose(v, tr[:, 1, 2]) for v in z): bad(z)
'''),
]
