PRE = '''
import sys, math, torch, warnings, random
import numpy as np
warnings.filterwarnings("ignore")
from torchrir import *
from torchrir.sim.ism import simulate_rir, simulate_dynamic_rir
from torchrir.config import SimulationConfig
def bad(msg): print("BROKEN:", msg); sys.exit(1)
D = torch.float64
'''
S = "src/torchrir/"
I = S + "sim/ism/"
BUGS = [
 dict(id="c04-lut-key", property="C04",
  edits=[(I + "accumulate.py", "    key = (fdl, lut_gran, str(device), dtype)\n    cached = _SINC_LUT_CACHE.get(key)\n", "    key = ((fdl + 1) * lut_gran, str(device), dtype)\n    cached = _SINC_LUT_CACHE.get(key)\n")],
  needs="two simulations in one process whose filter lengths and granularities differ but give tables of the same size", breaks="the second one uses the first one's table",
  demo=PRE + '''
room = Room.shoebox(size=[5., 4., 3.], fs=8000, beta=[.7]*6)
def r(l, g): return simulate_rir(room=room, sources=torch.tensor([[1., 2., 1.5]], dtype=D), mics=torch.tensor([[2.2, 2.1, 1.4]], dtype=D), max_order=1, nsample=300, config=SimulationConfig(rir_hpf_enable=False, frac_delay_length=l, sinc_lut_granularity=g))
a = r(41, 40)
import torchrir.sim.ism.accumulate as A
for v in vars(A).values():
    if isinstance(v, dict) and all(isinstance(k, tuple) for k in v) and v: v.clear()
r(83, 20); b = r(41, 40)
if not torch.equal(a, b): bad(float((a - b).abs().max()))
'''),
 dict(id="c05-first-pair", property="C05",
  edits=[(I + "accumulate.py", "        if not valid.any():\n", "        if not valid[0].any():\n")],
  needs="a first source/microphone pair so far apart that all its taps of a chunk fall outside the response", breaks="the other pairs lose that chunk",
  demo=PRE + '''
room = Room.shoebox(size=[90., 90., 9.], fs=8000, beta=[.7]*6)
def r(m): return simulate_rir(room=room, sources=torch.tensor([[1., 2., 1.5]], dtype=D), mics=torch.tensor(m, dtype=D), max_order=0, nsample=300, config=SimulationConfig(rir_hpf_enable=False))
a = r([[85., 85., 1.], [2., 2., 1.]])[:, 1]; b = r([[2., 2., 1.]])[:, 0]
if float((a - b).abs().max()) > 1e-9: bad("pair lost")
'''),
 dict(id="c06-odd-block", property="C06",
  edits=[(I + "api.py", "        _accumulate_rir_batch(rir_flat, sample_flat, attenuation_flat, cfg)\n", "        block = max(1, (t_steps * n_src) // 4) if t_steps * n_src > 200 else t_steps * n_src\n        for b0 in range(0, t_steps * n_src - block + 1, block):\n            sl = slice(b0, b0 + block)\n            _accumulate_rir_batch(\n                rir_flat[sl], sample_flat[sl], attenuation_flat[sl], cfg\n            )\n")],
  needs="more than 200 step/source pairs, their number not divisible by four", breaks="the last time steps have empty responses",
  demo=PRE + '''
room = Room.shoebox(size=[5., 4., 3.], fs=8000, beta=[.7]*6)
T = 203
s = torch.linspace(1, 2, T, dtype=D)[:, None, None].expand(T, 1, 3); m = torch.full((T, 1, 3), 2.3, dtype=D)
r = simulate_dynamic_rir(room=room, src_traj=s, mic_traj=m, max_order=0, nsample=100, config=SimulationConfig(rir_hpf_enable=False))
if float(r[-1].abs().max()) == 0: bad("empty last step")
'''),
 dict(id="c02-zero-beta", property="C02",
  edits=[(I + "images.py", "    coeff = (beta_hi**n_hi) * (beta_lo**n_lo)\n    return torch.prod(coeff, dim=1)\n", "    # accumulate in the log domain, products of many coefficients underflow\n    tiny = 1e-3\n    coeff = n_hi * torch.log(beta_hi.clamp_min(tiny)) + n_lo * torch.log(\n        beta_lo.clamp_min(tiny)\n    )\n    return torch.exp(torch.sum(coeff, dim=1))\n")],
  needs="a wall that absorbs almost everything", breaks="a wall with coefficient zero still reflects",
  demo=PRE + '''
room = Room.shoebox(size=[5., 4., 3.], fs=8000, beta=[0., .7, .7, .7, .7, .7])
r0 = Room.shoebox(size=[5., 4., 3.], fs=8000, beta=[0.]*6)
def r(q, o): return simulate_rir(room=q, sources=torch.tensor([[1., 2., 1.5]], dtype=D), mics=torch.tensor([[2.2, 2.1, 1.4]], dtype=D), max_order=o, nsample=400, config=SimulationConfig(rir_hpf_enable=False))
if float((r(r0, 2) - r(r0, 0)).abs().max()) > 1e-12: bad("dead walls reflect")
'''),
 dict(id="c07-cull", property="C07",
  edits=[(I + "contributions.py", "    gain = refl.view(1, 1, -1)\n", "    # images far outside the room are inaudible\n    near = torch.linalg.norm(img - 0.5 * room_size, dim=-1) < 12.0 * torch.max(room_size)\n    gain = refl.view(1, 1, -1) * near[:, None, :].to(refl.dtype)\n")],
  needs="images more than twelve room lengths from the centre of the room", breaks="such images are dropped depending on the source alone, so exchanging source and microphone changes the response",
  demo=PRE + '''
room = Room.shoebox(size=[1., .9], fs=8000, beta=[.97]*4)
a, b = torch.tensor([[.05, .07]], dtype=D), torch.tensor([[.93, .61]], dtype=D)
def r(s, m): return simulate_rir(room=room, sources=s, mics=m, max_order=14, nsample=900, config=SimulationConfig(rir_hpf_enable=False))
if float((r(a, b) - r(b, a)).abs().max()) > 1e-9: bad("not reciprocal")
'''),
 dict(id="c18-last-tail", property="C18",
  edits=[(S + "signal/dynamic.py", "    w_len = w_ini[1:] - w_ini[:-1]\n", "    w_len = torch.clamp(w_ini[1:] - w_ini[:-1], max=8 * max(1, n_samples // t_steps))\n")],
  needs="timestamps leaving one segment more than eight times longer than the average", breaks="the end of a long segment is not filtered",
  demo=PRE + '''
from torchrir.signal import DynamicConvolver
r = torch.zeros(20, 1, 1, 1, dtype=D); r[:, 0, 0, 0] = torch.arange(1., 21)
x = torch.ones(100, dtype=D)
ts = torch.tensor([0.] + [.81 + .01 * k for k in range(19)], dtype=D)
y = DynamicConvolver().convolve(x, r, timestamps=ts, fs=100.0) if False else DynamicConvolver(timestamps=ts, fs=100.0).convolve(x, r)
if float((y[:75] - 1).abs().max()) > 1e-9: bad(y[:75])
'''),
 dict(id="c16-rigid", property="C16",
  edits=[(S + "util/acoustics.py", "            dtype=size.dtype,\n        )\n        alpha = 1.0 - beta**2\n        absorption = torch.sum(surfaces * alpha).item()\n        if absorption <= 0.0:\n", "            dtype=size.dtype,\n        )\n        alpha = 1.0 - beta**2\n        absorption = torch.sum(surfaces * alpha).item()\n        if absorption <= 1e-2:\n")],
  needs="a small planar room with almost rigid walls", breaks="a finite T60 is reported as infinite",
  demo=PRE + '''
from torchrir.util.acoustics import estimate_t60_from_beta as f
t = f(torch.tensor([.5, .4], dtype=D), torch.full((4,), .999, dtype=D))
if math.isinf(t): bad(t)
'''),
 dict(id="c16-count", property="C16",
  edits=[(S + "util/acoustics.py", "    n = torch.ceil((tmax * c) / size).to(torch.int64)\n", "    n = torch.floor((tmax * c) / size).to(torch.int64) + 1\n")],
  needs="a side that divides duration times speed exactly", breaks="one image too many on that axis",
  demo=PRE + '''
from torchrir.util.acoustics import estimate_image_counts_from_tmax as f
n = f(.25, torch.tensor([10., 7., 5.]), c=320.0)
if n.tolist() != [8, 12, 16]: bad(n)
'''),
 dict(id="c12-lobe", property="C12",
  edits=[(S + "sim/directivity.py", "        return 0.25 + 0.75 * cos_theta\n", "        return torch.clamp(0.25 + 0.75 * cos_theta, min=-0.45)\n")],
  needs="a hypercardioid pattern seen from behind", breaks="the rear lobe is cut",
  demo=PRE + '''
from torchrir.sim.directivity import directivity_gain
g = directivity_gain("hypercardioid", torch.tensor([-1.0]))
if abs(float(g) + .5) > 1e-6: bad(g)
'''),
 dict(id="c13-single-angle", property="C13",
  edits=[(S + "util/orientation.py", "            angle = orientation.squeeze(-1)\n", "            angle = orientation.squeeze()\n")],
  needs="a batch of exactly one planar angle", breaks="the batch axis is lost",
  demo=PRE + '''
from torchrir.util.orientation import orientation_to_unit
v = orientation_to_unit(torch.tensor([[.3]]), 2)
if v.shape != (1, 2): bad(v.shape)
'''),
 dict(id="c14-ori-count", property="C14",
  edits=[(S + "models/room.py", "            if orientation.numel() in (1, 2, n_entities):\n", "            if orientation.numel() <= max(2, n_entities):\n")],
  needs="a planar array of four or more entities given three angles", breaks="an orientation that fits no entity count is accepted",
  demo=PRE + '''
from torchrir import Source
try: Source(torch.rand(5, 2), orientation=torch.tensor([.1, .2, .3]))
except ValueError: sys.exit(0)
bad("accepted")
'''),
 dict(id="c14-huge", property="C14",
  edits=[(S + "models/room.py", "    if not torch.all(torch.isfinite(pos)):\n", "    if not torch.isfinite(pos.double().pow(2).sum()):\n")],
  needs="finite positions whose squares overflow", breaks="finite positions are rejected",
  demo=PRE + '''
from torchrir import Source
Source(torch.tensor([[1e200, 0., 0.]], dtype=D))
'''),
 dict(id="c15-inf", property="C15",
  edits=[(S + "models/scene.py", "    if not torch.all(torch.isfinite(traj)):\n", "    if not torch.isfinite(torch.sum(traj - traj[:1])):\n")],
  needs="a trajectory that is non-finite in a way the sum of its displacements hides, or finite with an overflowing sum", breaks="finite trajectories with huge coordinates are rejected",
  demo=PRE + '''
room = Room.shoebox(size=[5., 4., 3.], fs=8000, beta=[.5]*6)
t = torch.zeros(3, 1, 3); t[1, 0, 0] = 3e38; t[2, 0, 0] = 3e38
try: DynamicScene(room=room, sources=Source.from_positions([[1., 1., 1.]]), mics=MicrophoneArray.from_positions([[1., 2., 1.]]), src_traj=t, mic_traj=torch.ones(3, 1, 3))
except ValueError as e: bad(e)
'''),
 dict(id="c19-quiet", property="C19",
  edits=[(S + "signal/dynamic.py", "            if frame.numel() == 0:\n", "            if frame.numel() == 0 or frame.abs().max() < 1e-5:\n")],
  needs="a frame that is quiet but not silent", breaks="that frame is left out of the output",
  demo=PRE + '''
from torchrir.signal import DynamicConvolver
x = torch.ones(8, dtype=D); x[4:] = 5e-6
y = DynamicConvolver(mode="hop", hop=4).convolve(x, torch.ones(2, 1, dtype=D) * 1e6)
if abs(float(y[5]) - 5) > 1e-6: bad(y)
'''),
 dict(id="c17-squeeze", property="C17",
  edits=[(S + "signal/static.py", "    return out.squeeze(0) if n_mic == 1 else out\n", "    return out.squeeze()\n")],
  needs="several microphones and a result one sample long", breaks="the sample axis is lost",
  demo=PRE + '''
from torchrir.signal import convolve_rir
y = convolve_rir(torch.ones(1), torch.ones(1, 3, 1))
if y.shape != (3, 1): bad(y.shape)
'''),
 dict(id="c20-basis", property="C20",
  edits=[(S + "geometry/arrays.py", "    basis_x = torch.cross(n, ref)\n    basis_x = basis_x / torch.linalg.norm(basis_x)\n", "    basis_x = torch.cross(n, ref)\n    basis_x = basis_x / torch.clamp(torch.linalg.norm(basis_x), min=.05)\n")],
  needs="a normal within three degrees of the x axis", breaks="the circle becomes an ellipse",
  demo=PRE + '''
from torchrir.geometry import circular_array
p = circular_array([1., 1., 1.], num=8, radius=.2, normal=[1., .02, 0.])
if float(((p - 1.).norm(dim=1) - .2).abs().max()) > 1e-4: bad(p)
'''),
 dict(id="c21-ceiling", property="C21",
  edits=[(S + "geometry/sampling.py", "    z_high = min(float(room_size[2].item()) - margin, float(z_max))\n    if z_high <= z_low:\n", "    z_high = min(float(room_size[2].item()), float(z_max))\n    if z_high <= z_low:\n")],
  needs="a ceiling lower than the upper height limit plus the margin", breaks="positions are closer to the ceiling than the margin",
  demo=PRE + '''
from torchrir.geometry.sampling import sample_positions_with_z_range as f
p = f(num=200, room_size=torch.tensor([5., 4., 2.]), rng=random.Random(1), z_range=(1.0, 1.9), margin=.5)
if float(p[:, 2].max()) > 1.5 + 1e-5: bad(p[:, 2].max())
'''),
 dict(id="c03-batch-near", property="C03",
  edits=[(I + "contributions.py", "    vec = mic_pos[None, :, None, :] - img[:, None, :, :]\n    dist = torch.linalg.norm(vec, dim=-1)\n    dist = torch.clamp(dist, min=1e-6)\n", "    vec = mic_pos[None, :, None, :] - img[:, None, :, :]\n    dist = torch.linalg.norm(vec, dim=-1)\n    dist = torch.clamp(dist, min=1e-3)\n")],
  needs="a microphone less than a millimetre from a source", breaks="its gain is limited as if it were a millimetre away",
  demo=PRE + '''
room = Room.shoebox(size=[5., 4., 3.], fs=8000, beta=[0.]*6)
r = simulate_rir(room=room, sources=torch.tensor([[1., 2., 1.5]], dtype=D), mics=torch.tensor([[1., 2., 1.5001]], dtype=D), max_order=0, nsample=100, config=SimulationConfig(rir_hpf_enable=False))
if float(r.max()) < 5000: bad(r.max())
'''),
 dict(id="c08-level", property="C08",
  edits=[(I + "diffuse.py", "        torch.linalg.norm(rir[..., tdiff_idx - 1 : tdiff_idx], dim=-1, keepdim=True)\n", "        torch.linalg.norm(\n            rir[..., max(tdiff_idx - 1, 0) : tdiff_idx], dim=(1, 2), keepdim=True\n        )\n        / math.sqrt(rir.shape[1])\n")],
  needs="a diffuse tail and several microphones", breaks="the tail of a microphone is scaled by the level at the others",
  demo=PRE + '''
room = Room.shoebox(size=[5., 4., 3.], fs=8000, beta=[.8]*6)
def r(m): return simulate_rir(room=room, sources=torch.tensor([[1., 2., 1.5]], dtype=D), mics=torch.tensor(m, dtype=D), max_order=2, nsample=400, tmax=.05, tdiff=.02, config=SimulationConfig(rir_hpf_enable=False, seed=3))
y = r([[2.2, 2.1, 1.4], [4.4, 3.1, .4]]); h = int(.02 * 8000)
k = y[0, :, h] / y[0, :, h - 1].abs()
z = r([[2.2, 2.1, 1.4]])
if abs(float(z[0, 0, h] / z[0, 0, h - 1].abs()) - float(k[0])) > 1e-4: bad("level")
'''),
 dict(id="c10-dyn-round", property="C10",
  edits=[(I + "validate.py", '''def _validate_dynamic_args(
    *,
    room: Room,
    nsample: Optional[int],
    tmax: Optional[float],
    max_order: int,
) -> int:
    if not isinstance(room, Room):
        raise TypeError("room must be a Room instance")
    if nsample is None:
        if tmax is None:
            raise ValueError("nsample or tmax must be provided")
        nsample = int(math.ceil(tmax * room.fs))
''', '''def _validate_dynamic_args(
    *,
    room: Room,
    nsample: Optional[int],
    tmax: Optional[float],
    max_order: int,
) -> int:
    if not isinstance(room, Room):
        raise TypeError("room must be a Room instance")
    if nsample is None:
        if tmax is None:
            raise ValueError("nsample or tmax must be provided")
        nsample = int(math.floor(tmax * room.fs)) + 1
''')],
  needs="a dynamic simulation whose duration is a whole number of samples", breaks="the response has one sample too many",
  demo=PRE + '''
room = Room.shoebox(size=[5., 4., 3.], fs=8000, beta=[.5]*6)
r = simulate_dynamic_rir(room=room, src_traj=torch.ones(2, 1, 3), mic_traj=torch.ones(2, 1, 3) * 2, max_order=0, tmax=.0625, config=SimulationConfig(rir_hpf_enable=False))
if r.shape[-1] != 500: bad(r.shape)
'''),
 dict(id="c11-inplace", property="C11",
  edits=[(S + "geometry/arrays.py", "        direction_vec = direction_vec / torch.linalg.norm(direction_vec)\n", "        direction_vec /= torch.linalg.norm(direction_vec)\n")],
  needs="a direction given as a tensor of the centre's dtype", breaks="the caller's direction tensor is normalised in place",
  demo=PRE + '''
from torchrir.geometry import linear_array
d = torch.tensor([0., 3., 4.])
linear_array(torch.zeros(3), num=3, spacing=.1, direction=d)
if d.tolist() != [0., 3., 4.]: bad(d)
'''),
 dict(id="c01-far-axis", property="C01",
  edits=[(I + "images.py", "    n = torch.floor_divide(n_vec + 1, 2).to(dtype=src_pos.dtype)\n    base = 2.0 * room_size * n\n", "    n = torch.floor_divide(n_vec + 1, 2).to(torch.int8).to(dtype=src_pos.dtype)\n    base = 2.0 * room_size * n\n")],
  needs="more than 254 reflections along one axis", breaks="images beyond the 254th wrap around",
  demo=PRE + '''
room = Room.shoebox(size=[.3, 4., 3.], fs=800, beta=[1., 1., 0., 0., 0., 0.])
r = simulate_rir(room=room, sources=torch.tensor([[.1, 2., 1.5]], dtype=D), mics=torch.tensor([[.2, 2.1, 1.4]], dtype=D), max_order=0, nb_img=(300, 0, 0), nsample=260, config=SimulationConfig(rir_hpf_enable=False))
n = torch.arange(-300, 301); x = torch.where(n % 2 == 0, n * .3 + .1, (n + 1) * .3 - .1).double()
d = torch.sqrt((x - .2) ** 2 + .02)
from torchrir.sim.ism.accumulate import _accumulate_rir_batch
e = torch.zeros(1, 1, 260, dtype=D)
_accumulate_rir_batch(e, (d / 343 * 800 + 40)[None, None], (1 / d)[None, None], SimulationConfig())
if float((r - e).abs().max()) > 1e-6: bad(float((r - e).abs().max()))
'''),
]
