"""Shared by C30 and C31: fake CMU ARCTIC trees and runs of the data set builder in a scratch directory."""
import json, os, pathlib, shutil
import numpy as np
import soundfile as sf


def speaker(root, name, rate, lengths, amp, rng, subtype="PCM_16", dc=0.0):
    d = pathlib.Path(root) / "ARCTIC" / f"cmu_us_{name}_arctic"
    (d / "wav").mkdir(parents=True)
    (d / "etc").mkdir(parents=True)
    lines = []
    for i, n in enumerate(lengths):
        x = np.clip(amp * (dc + (1 - abs(dc)) * rng.uniform(-1, 1, n)), -.999, .999)
        sf.write(d / "wav" / f"arctic_a{i:04d}.wav", x, rate, subtype=subtype)
        lines.append(f'( arctic_a{i:04d} "text {i}" )')
    (d / "etc" / "txt.done.data").write_text("\n".join(lines) + "\n", encoding="utf-8")


def build(fn, cmu, out, **kw):
    base = dict(n_scenes=1, n_sources=2, n_moving_sources=1, trajectory_steps=8, rir_samples=48, max_order=1, save_layout_mp4=False, save_layout_images=False)
    base.update(kw)
    return fn(cmu_root=pathlib.Path(cmu), dataset_root=pathlib.Path(out), **base)


def scenes(out):
    r = []
    for d in sorted(pathlib.Path(out).glob("scene_*")):
        stems = [sf.read(p, always_2d=True) for p in sorted(d.glob("source_*.wav"))]
        mix = sf.read(d / "mixture.wav", always_2d=True)
        r.append(dict(dir=d, stems=stems, mix=mix, meta=json.loads((d / "metadata.json").read_text()), info=json.loads((d / "source_info.json").read_text())))
    return r


def snapshot(top):
    out = {}
    for d, ds, fs in os.walk(top):
        for n in fs:
            p = os.path.join(d, n)
            out[os.path.relpath(p, top)] = open(p, "rb").read()
    return out


SPK = ["bdl", "slt", "clb", "rms", "jmk", "awb"]
