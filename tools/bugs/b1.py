PRE = '''
import sys, math, torch, warnings
warnings.filterwarnings("ignore")
from torchrir import *
def bad(msg): print("BROKEN:", msg); sys.exit(1)
'''
I = "src/torchrir/sim/ism/"
BUGS = [
 dict(id="c01-nbimg-order", property="C01",
  edits=[(I + "images.py", '        return torch.stack([g.reshape(-1) for g in grids], dim=-1)\n', '        n_vec = torch.stack([g.reshape(-1) for g in grids], dim=-1)\n        if n_vec.shape[0] > 4096:\n            n_vec = n_vec[torch.sum(torch.abs(n_vec), dim=-1) <= int(nb.sum()) - 1]\n        return n_vec\n')],
  needs="explicit per-axis image counts whose box holds more than 4096 images",
  breaks="the farthest corner images of a large explicit image box are dropped",
  demo=PRE + '''
from torchrir.sim.ism.images import _image_source_indices as f
n = f(2, 3, device=torch.device("cpu"), nb_img=(8, 8, 8))
if sorted(map(tuple, n.tolist())) != sorted((i, j, k) for i in range(-8, 9) for j in range(-8, 9) for k in range(-8, 9)): bad("box")
'''),
 dict(id="c02-odd-negative", property="C02",
  edits=[(I + "images.py", "    n_lo = torch.where(n >= 0, n // 2, (k + 1) // 2)\n", "    n_lo = torch.where(n >= 0, n // 2, (k - (n + k) // 2 + 1) // 2 - (k >= 5).to(n.dtype) * (k % 2))\n")],
  needs="an axis with five or more reflections on the negative side and unequal walls",
  breaks="high odd negative image indices lose one reflection off the low wall",
  demo=PRE + '''
from torchrir.sim.ism import simulate_rir
from torchrir.config import SimulationConfig
cfg = SimulationConfig(rir_hpf_enable=False)
room = Room.shoebox(size=[1.0, 9.0, 9.0], fs=8000, beta=[0.5, 1.0, 0, 0, 0, 0], c=343.0)
s = torch.tensor([[0.3, 4.0, 4.0]], dtype=torch.float64); m = torch.tensor([[0.6, 4.0, 4.0]], dtype=torch.float64)
def r(k): return simulate_rir(room=room, sources=s, mics=m, max_order=1, nb_img=(k,0,0), nsample=600, config=cfg, dtype=torch.float64)
d = (r(5) - r(4))[0,0]
import numpy as np
# two new images: n=5 at 6-0.3 -> 3 hi, 2 lo; n=-5 at -4-0.3 -> 3 lo, 2 hi
ref5 = .25/abs(5.7-.6); refm5 = .125/abs(-4.3-.6)
tot = float(d.sum())
if abs(tot - (ref5+refm5)) > 0.01*(ref5+refm5): bad((tot, ref5+refm5))
'''),
 dict(id="c03-near-distance", property="C03",
  edits=[(I + "contributions.py", "    dist = torch.clamp(dist, min=1e-6)\n    time = dist / room.c\n    time = time + (fdl2 / room.fs)\n    sample = time * room.fs\n\n    gain = refl.view(1, 1, 1, -1)\n", "    dist = torch.clamp(dist, min=1e-6)\n    time = dist / room.c\n    time = time + (fdl2 / round(room.fs))\n    sample = time * room.fs\n\n    gain = refl.view(1, 1, 1, -1)\n")],
  needs="a moving simulation with a non-integer sampling rate",
  breaks="arrivals of a moving simulation shift by a fraction of a sample when fs is not an integer",
  demo=PRE + '''
from torchrir.sim.ism import simulate_rir, simulate_dynamic_rir
from torchrir.config import SimulationConfig
cfg = SimulationConfig(rir_hpf_enable=False)
room = Room.shoebox(size=[5.0, 4.0, 3.0], fs=1000.5, beta=[0.7]*6)
s = torch.tensor([[1.0, 2.0, 1.5]], dtype=torch.float64); m = torch.tensor([[2.2, 2.1, 1.4]], dtype=torch.float64)
a = simulate_rir(room=room, sources=s, mics=m, max_order=2, nsample=200, config=cfg, dtype=torch.float64)
b = simulate_dynamic_rir(room=room, src_traj=s[None], mic_traj=m[None], max_order=2, nsample=200, config=cfg, dtype=torch.float64)
if float((a-b[0]).abs().max()) > 1e-6: bad(float((a-b[0]).abs().max()))
'''),
 dict(id="c04-chunk-skip", property="C04",
  edits=[(I + "accumulate.py", "        if not valid.any():\n            continue\n", "        if not valid.any():\n            break\n")],
  needs="an accumulation chunk whose images all arrive outside the response followed by one that does not",
  breaks="images after a chunk of out-of-range images are lost",
  demo=PRE + '''
from torchrir.sim.ism import simulate_rir
from torchrir.config import SimulationConfig
room = Room.shoebox(size=[5.0, 4.0, 3.0], fs=8000, beta=[0.7]*6)
s = torch.tensor([[1.0, 2.0, 1.5]], dtype=torch.float64); m = torch.tensor([[2.2, 2.1, 1.4]], dtype=torch.float64)
def r(c): return simulate_rir(room=room, sources=s, mics=m, max_order=4, nsample=300, config=SimulationConfig(rir_hpf_enable=False, accumulate_chunk_size=c), dtype=torch.float64)
if float((r(1)-r(4096)).abs().max()) > 1e-9: bad("chunk size changes the response")
'''),
 dict(id="c05-lastchunk", property="C05",
  edits=[(I + "api.py", "        sample_chunk, attenuation_chunk = _compute_image_contributions_batch(\n            src_pos,\n            mic_pos,\n            room_size,\n            n_vec_chunk,\n            refl_chunk,\n", "        sample_chunk, attenuation_chunk = _compute_image_contributions_batch(\n            src_pos,\n            mic_pos,\n            room_size,\n            n_vec_chunk,\n            refl[end - n_vec_chunk.shape[0] : end] if start < 2 * img_chunk else refl[:img_chunk][: n_vec_chunk.shape[0]],\n")],
  needs="more than two image chunks (several thousand images with the default chunk size)",
  breaks="images from the third chunk on take the reflection gains of the first chunk",
  demo=PRE + '''
from torchrir.sim.ism import simulate_rir
from torchrir.config import SimulationConfig
room = Room.shoebox(size=[5.0, 4.0, 3.0], fs=8000, beta=[0.7, .6, .5, .8, .9, .4])
s = torch.tensor([[1.0, 2.0, 1.5]], dtype=torch.float64); m = torch.tensor([[2.2, 2.1, 1.4]], dtype=torch.float64)
def r(c): return simulate_rir(room=room, sources=s, mics=m, max_order=6, nsample=500, config=SimulationConfig(rir_hpf_enable=False, image_chunk_size=c), dtype=torch.float64)
if float((r(50)-r(100000)).abs().max()) > 1e-9: bad("image chunking changes the response")
'''),
 dict(id="c06-dyn-micdir", property="C06",
  edits=[(I + "contributions.py", "            mic_dir[None, None, :, None, :]\n            if mic_dir.ndim == 2\n", "            mic_dir[None, :, None, None, :]\n            if mic_dir.ndim == 2 and mic_dir.shape[0] == src_traj.shape[1] > 1\n            else mic_dir[None, None, :, None, :]\n            if mic_dir.ndim == 2\n")],
  needs="a moving simulation with per-microphone orientations and as many sources as microphones",
  breaks="each source, not each microphone, selects the microphone orientation in moving simulations",
  demo=PRE + '''
from torchrir.sim.ism import simulate_rir, simulate_dynamic_rir
from torchrir.config import SimulationConfig
cfg = SimulationConfig(rir_hpf_enable=False)
room = Room.shoebox(size=[5.0, 4.0, 3.0], fs=8000, beta=[0.7]*6)
s = torch.tensor([[1.0, 2.0, 1.5],[3.,1.,1.]], dtype=torch.float64); m = torch.tensor([[2.2, 2.1, 1.4],[2.6,2.1,1.4]], dtype=torch.float64)
o = torch.tensor([[1.0, 0, 0],[0, 1.0, 0]], dtype=torch.float64)
k = dict(room=room, max_order=1, nsample=200, config=cfg, dtype=torch.float64, directivity=("omni","cardioid"))
a = simulate_rir(sources=Source.from_positions(s), mics=MicrophoneArray.from_positions(m, orientation=o), **k)
b = simulate_dynamic_rir(src_traj=s[None], mic_traj=m[None], orientation=(None, o), **k)
if float((a-b[0]).abs().max()) > 1e-6: bad(float((a-b[0]).abs().max()))
'''),
 dict(id="c07-halfomni", property="C12",
  edits=[("src/torchrir/sim/directivity.py", "        return (cos_theta > 0).to(cos_theta.dtype)\n", "        return (cos_theta > -1e-3).to(cos_theta.dtype)\n")],
  needs="a half-omni pattern with an angle at or just beyond 90 degrees",
  breaks="the half-omni pattern passes sound arriving exactly sideways",
  demo=PRE + '''
from torchrir.sim.directivity import directivity_gain
if float(directivity_gain("homni", torch.tensor([0.0], dtype=torch.float64))) != 0: bad("side")
'''),
 dict(id="c08-seed", property="C08",
  edits=[(I + "diffuse.py", "    gen.manual_seed(0 if seed is None else seed)\n", "    gen.manual_seed(0 if not seed else seed % 65536)\n")],
  needs="a seed of 65536 or more",
  breaks="seeds that differ by a multiple of 65536 give the same tail",
  demo=PRE + '''
from torchrir.sim.ism import simulate_rir
from torchrir.config import SimulationConfig
room = Room.shoebox(size=[5.0, 4.0, 3.0], fs=8000, beta=[0.7]*6)
s = torch.tensor([[1.0, 2.0, 1.5]]); m = torch.tensor([[2.2, 2.1, 1.4]])
def r(x): return simulate_rir(room=room, sources=s, mics=m, max_order=1, tmax=0.1, tdiff=0.05, config=SimulationConfig(rir_hpf_enable=False, seed=x))
if torch.equal(r(1), r(65537)): bad("same tail for different seeds")
'''),
]
