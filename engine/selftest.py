"""Cross-checks the symbolic numpy semantics against the installed numpy on constant arrays."""
import random
from . import core, symnp as N, terms as T


def val(x):
    env = T.Env(random.Random(0))
    if isinstance(x, core.Cond): return bool(x)
    if isinstance(x, core.S): return env.ev(x.p)
    if isinstance(x, N.Arr):
        if x.ndim == 0: return val(x.item())
        return [val(y) for y in x]
    if isinstance(x, (list, tuple)): return [val(y) for y in x]
    return x


CASES = [
    'A', 'A.T', 'A + B', 'A * 2 - B', 'A @ B.T', 'A[0]', 'A[:, 1]', 'A[::-1]', 'A[..., None]', 'A[1:, :2]', 'A[[0, 1], [1, 2]]',
    'A[[1, 0]]', 'np.roll(A, 1, axis=1)', 'np.roll(A, -1, axis=0)', 'np.roll(v, 2)', 'np.flip(A, axis=1)', 'np.stack([v, v])', 'np.hstack([A, B])', 'np.vstack([A, B])',
    'np.concatenate([v, v[:2]])', 'A.reshape(3, 2)', 'A.reshape(-1)', 'A.flatten()', 'A.ravel(order="F")', 'A.sum(axis=0)', 'np.sum(A)', 'A.reshape((1, 2, 3)).squeeze()',
    'np.pad(A, ((1, 0), (0, 2)))', 'np.pad(A, 1, mode="edge")', 'np.tile(A, (2, 1))', 'np.tile(v, (2, 2))', 'np.repeat(v, 2)', 'np.meshgrid(v, v[:2])[0]', 'np.meshgrid(v, v[:2], indexing="ij")[1]',
    'np.outer(v, v)', 'np.diag(v)', 'np.diag(A @ B.T)', 'np.cumsum(v)', 'np.where(A > 0, A, 0)', 'np.minimum(A, 0.5)', 'np.clip(A, -.5, .5)', 'np.exp(1j * v)', 'np.cos(v) + 1j * np.sin(v)',
    'np.abs(A)', 'np.angle(np.exp(1j * v / 10))', 'np.conj(A * 1j)', 'np.eye(3)', 'np.arange(2, 7)', 'np.linspace(0, 1, 5)', 'np.zeros((2, 2)) + 1', 'np.ones_like(v)', 'np.full((2,), 3.)',
    'np.transpose(C, (2, 0, 1))', 'np.moveaxis(C, 0, -1)', 'C.swapaxes(0, 2)', 'C[1, :, ::-1]', 'C[:, [0, 1], 0]', 'np.expand_dims(v, 1)', 'np.mod(v, 0.7)', 'np.floor(v)', 'np.round(v)', 'np.mean(A)',
    'np.delete(v, [0])', 'np.arctan2(v, 2)', 'np.sqrt(v * v)', 'np.sign(v)', 'np.linalg.norm(A)', 'A[-1, -2]', 'A[:, 1:-1]', 'np.broadcast_to(v, (2, 4))', 'np.block([[A, B], [B, A]])',
]


def main():
    import numpy as np
    core.set_ctx(core.Ctx())
    m = N.make_module(False)
    bad = 0
    base = dict(A=[[1, -2, 3.5], [0.25, 5, -6]], B=[[2, 0, 1], [-1, .5, 4]], v=[.5, -1.25, 2, 3.75], C=[[[1, 2, 3], [4, 5, 6]], [[7, 8, 9], [10, 11, 12]]])
    for c in CASES:
        e1 = dict({k: np.array(x) for k, x in base.items()}, np=np)
        e2 = dict({k: m.array(x) for k, x in base.items()}, np=m)
        want = eval(c, e1)
        try:
            got = val(eval(c, e2))
            ok = np.shape(got) == np.shape(want) and np.allclose(np.array(got, dtype=complex), np.array(want, dtype=complex), atol=1e-9)
        except T.Unsupported as e:
            print('  unsupported', c, e)
            continue
        except Exception as e:
            ok, got = False, f'{type(e).__name__}: {e}'
        if not ok:
            bad += 1
            print('SELFTEST MISMATCH', c, got, want)
    print(f'selftest: {len(CASES)} cases, {bad} mismatches')
    return 1 if bad else 0
