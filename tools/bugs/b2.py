PRE = '''
import sys, math, torch, warnings
warnings.filterwarnings("ignore")
from torchrir import *
def bad(msg): print("BROKEN:", msg); sys.exit(1)
'''
S = "src/torchrir/"
I = S + "sim/ism/"
BUGS = [
 dict(id="c09-high-order", property="C09",
  edits=[(I + "hpf.py", '    n = int(hpf_kwargs.pop("n", 2))\n', '    n = min(int(hpf_kwargs.pop("n", 2)), 8)\n')],
  needs="a high-pass order above eight", breaks="the requested filter order is silently reduced",
  demo=PRE + '''
import numpy as np
from scipy.signal import iirfilter, sosfiltfilt
from torchrir.sim.ism.hpf import apply_rir_hpf
from torchrir.config import SimulationConfig
x = torch.randn(2, 400, dtype=torch.float64, generator=torch.Generator().manual_seed(1))
cfg = SimulationConfig(rir_hpf_fc=1500.0, rir_hpf_kwargs={"n": 10, "type": "butter"})
y = apply_rir_hpf(x, 8000, cfg)
ref = sosfiltfilt(iirfilter(10, 2*1500/8000, btype="highpass", ftype="butter", output="sos"), x.numpy(), axis=-1)
if np.abs(y.numpy() - ref).max() > 1e-9: bad("order")
'''),
 dict(id="c10-close-conflict", property="C10",
  edits=[(S + "sim/simulators.py", "    if simulator_value != config_value:\n", "    if abs(simulator_value - config_value) > 1e-3:\n")],
  needs="simulator and config durations that differ by less than a millisecond",
  breaks="a conflicting tmax of the configuration is silently ignored",
  demo=PRE + '''
room = Room.shoebox(size=[5., 4., 3.], fs=48000, beta=[.5]*6)
sc = StaticScene(room=room, sources=Source.from_positions([[1., 1., 1.]]), mics=MicrophoneArray.from_positions([[2., 2., 1.]]))
from torchrir.sim import ISMSimulator
from torchrir.config import SimulationConfig
try:
    ISMSimulator(max_order=0, tmax=0.05).simulate(sc, SimulationConfig(tmax=0.0505))
except ValueError:
    sys.exit(0)
bad("conflict accepted")
'''),
 dict(id="c11-window-cache", property="C11",
  edits=[(I + "accumulate.py", '    key = (fdl, str(device), dtype)\n    cached = _FDL_WINDOW_CACHE.get(key)\n', '    key = (fdl, str(device), dtype)\n    cached = _FDL_WINDOW_CACHE.get((fdl, str(device), torch.float32)) if dtype == torch.float64 else None\n    cached = _FDL_WINDOW_CACHE.get(key) if cached is None else cached.to(dtype)\n')],
  needs="a double-precision simulation after a single-precision one in the same process",
  breaks="a double-precision response depends on whether a single-precision one was computed before",
  demo=PRE + '''
from torchrir.sim.ism import simulate_rir
from torchrir.config import SimulationConfig
room = Room.shoebox(size=[5., 4., 3.], fs=8000, beta=[.7]*6)
cfg = SimulationConfig(rir_hpf_enable=False)
def r(d): return simulate_rir(room=room, sources=torch.tensor([[1., 2., 1.5]]).to(d), mics=torch.tensor([[2.2, 2.1, 1.4]]).to(d), max_order=2, nsample=300, config=cfg, dtype=d)
a = r(torch.float64); r(torch.float32); b = r(torch.float64)
if not torch.equal(a, b): bad(float((a-b).abs().max()))
'''),
 dict(id="c13-short-vector", property="C13",
  edits=[(S + "util/orientation.py", "    if dim == 3:\n        if orientation.shape[-1] == 3:\n            return normalize_orientation(orientation)\n", "    if dim == 3:\n        if orientation.shape[-1] == 3:\n            return normalize_orientation(orientation, eps=1e-2)\n")],
  needs="a three-dimensional orientation vector shorter than a centimetre",
  breaks="short orientation vectors do not become unit vectors",
  demo=PRE + '''
from torchrir.util.orientation import orientation_to_unit
v = orientation_to_unit(torch.tensor([[0.003, 0.0, 0.004], [1., 2., 2.]], dtype=torch.float64), 3)
if float((v.norm(dim=-1) - 1).abs().max()) > 1e-9: bad(v)
'''),
 dict(id="c14-inf-orientation", property="C14",
  edits=[(S + "models/room.py", "    if not torch.all(torch.isfinite(orientation)):\n", "    if torch.any(torch.isnan(orientation)) or (\n        orientation.ndim == 2 and torch.any(torch.isinf(orientation[0]))\n    ):\n")],
  needs="an infinite orientation of the second or a later microphone",
  breaks="microphone arrays with an infinite orientation are constructed",
  demo=PRE + '''
try:
    MicrophoneArray.from_positions([[1., 1., 1.], [2., 2., 2.]], orientation=[[1., 0., 0.], [float("inf"), 0., 0.]])
except ValueError:
    sys.exit(0)
bad("accepted")
'''),
 dict(id="c15-2d-traj", property="C15",
  edits=[(S + "models/scene.py", "        if traj.shape[1] != dim:\n            raise ValueError(f\"{name} must have shape (T, {dim}) for single entity\")\n", "        if traj.shape[1] < dim:\n            raise ValueError(f\"{name} must have shape (T, {dim}) for single entity\")\n")],
  needs="a (T, 3) trajectory of a single entity in a two-dimensional room",
  breaks="a planar scene accepts a three-dimensional single-entity trajectory",
  demo=PRE + '''
room = Room.shoebox(size=[5., 4.], fs=8000, beta=[.5]*4)
try:
    DynamicScene(room=room, sources=Source.from_positions([[1., 1.]]), mics=MicrophoneArray.from_positions([[2., 2.]]), src_traj=torch.ones(4, 3), mic_traj=torch.ones(4, 2))
except ValueError:
    sys.exit(0)
bad("accepted")
'''),
 dict(id="c16-walls-2d", property="C16",
  edits=[(S + "util/acoustics.py", "            [ly * lz, ly * lz, lx * lz, lx * lz],\n            device=size.device,\n            dtype=size.dtype,\n        )\n        alpha = 1.0 - beta**2\n", "            [ly * lz, lx * lz, ly * lz, lx * lz],\n            device=size.device,\n            dtype=size.dtype,\n        )\n        alpha = 1.0 - beta**2\n")],
  needs="a non-square planar room whose second and third walls differ",
  breaks="planar reverberation time uses the wrong wall lengths",
  demo=PRE + '''
from torchrir.util.acoustics import estimate_t60_from_beta
t = estimate_t60_from_beta(torch.tensor([2., 8.]), torch.tensor([.1, .2, .9, .8]))
ref = 0.161*16/(8*(1-.01)+8*(1-.04)+2*(1-.81)+2*(1-.64))
if abs(t - ref) > 1e-4: bad((t, ref))
'''),
 dict(id="c17-fftlen", property="C17",
  edits=[(S + "signal/static.py", "    fft_len = 1 << (n - 1).bit_length()\n", "    fft_len = 1 << max(signal.numel(), n - 2).bit_length()\n")],
  needs="a full convolution exactly one sample longer than a power of two (and a signal at most that power)",
  breaks="the last output sample wraps around into the first one for such lengths",
  demo=PRE + '''
from torchrir.signal import fft_convolve
import numpy as np
for a in range(1, 40):
    for b in range(1, 40):
        x = torch.arange(1, a+1, dtype=torch.float64); h = torch.arange(1, b+1, dtype=torch.float64)
        if abs(fft_convolve(x, h).numpy() - np.convolve(x.numpy(), h.numpy())).max() > 1e-6: bad((a, b))
'''),
 dict(id="c18-short-seg", property="C18",
  edits=[(S + "signal/dynamic.py", "        seg_len = int(w_len[t].item())\n        if seg_len == 0:\n            continue\n        start = int(w_ini[t].item())\n        for s in range(n_src):\n", "        seg_len = int(w_len[t].item())\n        if seg_len < 3 and t_steps > 64:\n            continue\n        start = int(w_ini[t].item())\n        for s in range(n_src):\n")],
  needs="more than 64 trajectory steps with segments of one or two samples",
  breaks="very short segments of long trajectories are dropped",
  demo=PRE + '''
from torchrir.signal import DynamicConvolver
x = torch.ones(111, dtype=torch.float64); h = torch.arange(1., 71., dtype=torch.float64)[:, None]
y = DynamicConvolver(mode="trajectory").convolve(x, h)
b = [k*111//70 for k in range(71)]
ref = torch.cat([torch.full((b[k+1]-b[k],), k+1., dtype=torch.float64) for k in range(70)])
if float((y-ref).abs().max()) > 1e-6: bad((y, ref))
'''),
 dict(id="c19-last-frame", property="C19",
  edits=[(S + "signal/dynamic.py", "    frames = math.ceil(signal.shape[1] / hop)\n", "    frames = max(1, int(signal.shape[1] / hop + 1 - 1e-3))\n")],
  needs="a hop of more than a thousand samples and a last frame of only a sample or two",
  breaks="a very short last frame is dropped",
  demo=PRE + '''
from torchrir.signal import DynamicConvolver
x = torch.ones(4001, dtype=torch.float64); h = torch.ones(5, 1, dtype=torch.float64)
y = DynamicConvolver(mode="hop", hop=2000).convolve(x, h)
if y.numel() != 6000 or float(y[4000]) < .5: bad((y.shape, ))
'''),
 dict(id="c20-normal-down", property="C20",
  edits=[(S + "geometry/arrays.py", "    basis_y = torch.cross(n, basis_x)\n", "    basis_y = torch.cross(n if n[2] >= 0 else n + 1e-3 * ref, basis_x) + (1e-3 * n if n[2] < 0 else 0.0)\n")],
  needs="a circular array whose normal points downwards",
  breaks="the microphones leave the plane perpendicular to the normal",
  demo=PRE + '''
from torchrir.geometry import circular_array
n = torch.tensor([.3, .2, -1.], dtype=torch.float64)
p = circular_array([1., 2., 1.5], num=8, radius=1.0, normal=n, dtype=torch.float64)
d = ((p - torch.tensor([1., 2., 1.5], dtype=torch.float64)) @ (n / n.norm())).abs().max()
if float(d) > 1e-6: bad(float(d))
'''),
 dict(id="c21-attempts", property="C21",
  edits=[(S + "geometry/sampling.py", "        dist = torch.linalg.norm(torch.tensor(point) - center).item()\n        if dist >= min_distance:\n", "        dist = torch.linalg.norm(torch.tensor(point) - center).item()\n        if dist + (0.05 if attempts > 9 * max_attempts // 10 else 0.0) >= min_distance:\n") ],
  needs="a room in which nearly all attempts are used up", breaks="the minimum distance is relaxed when attempts run low",
  demo=PRE + '''
import random
from torchrir.geometry import sample_positions_min_distance as f
c = torch.tensor([2., 2., 2.]); room = torch.tensor([4., 4., 4.])
for seed in range(30):
    try:
        p = f(num=1, room_size=room, rng=random.Random(seed), center=c, min_distance=2.45, z_range=None)
    except RuntimeError:
        continue
    if float((p - c).norm(dim=-1).min()) < 2.45 - 1e-4: bad(float((p - c).norm(dim=-1).min()))
'''),
 dict(id="c22-end", property="C22",
  edits=[(S + "geometry/trajectories.py", "    return torch.stack(\n", "    path = torch.stack(\n"), (S + "geometry/trajectories.py", "        dim=0,\n    )\n", "        dim=0,\n    )\n    if steps > 512:\n        path[-1] = path[-2]\n    return path\n")],
  needs="a trajectory of more than 512 steps", breaks="long trajectories stop one step before the end point",
  demo=PRE + '''
from torchrir.geometry import linear_trajectory
a, b = torch.tensor([0., 1., 2.], dtype=torch.float64), torch.tensor([5., 1., -2.], dtype=torch.float64)
p = linear_trajectory(a, b, 1000)
d = p[1:] - p[:-1]
if float((d - d[0]).abs().max()) > 1e-9: bad("spacing")
'''),
]
