exec(open("/verif/tools/seeds/pypre.py").read())
S=dict(id="value-gradient", property="P33", edits=[(PK+"kinoptpy/lqr_gain_manifold.py","self.Qdx[t] - 2.*self.Qdu[t].dot(self.kfb[t])","self.Qdx[t] - self.Qdu[t].dot(self.kfb[t])")],
 needs="two or more steps and a nonzero control gradient", what="the gradient of the value function misses one term, so the feedforward of every earlier step is wrong",
 **py('''m = load("kinoptpy/lqr_gain_manifold.py", ["pinocchio", "matplotlib", "matplotlib.pyplot"]); C = [c for c in vars(m).values() if isinstance(c, type) and hasattr(c, "compute_value_function")][0]
rng = np.random.RandomState(0); o = C.__new__(C); n, k = 12, 6; A = rng.rand(n + k, n + k); H = A @ A.T + np.eye(n + k); g = rng.rand(n + k); o.Q0 = np.array([0.3]); o.Qdx = g[None, :n].copy(); o.Qdu = g[None, n:].copy(); o.Qdxdx = H[None, :n, :n].copy(); o.Qdudu = H[None, n:, n:].copy(); o.Qdxdu = H[None, :n, n:].copy(); o.kff = np.zeros((1, k)); o.kfb = np.zeros((1, k, n)); o.value = np.zeros(1); o.value_dx = np.zeros((1, n)); o.value_dxdx = np.zeros((1, n, n)); o.compute_value_function(0)
def best(x): return 0.3 + g[:n] @ x + 0.5 * x @ H[:n, :n] @ x - 0.5 * (g[n:] + H[n:, :n] @ x) @ np.linalg.solve(H[n:, n:], g[n:] + H[n:, :n] @ x)
check(abs(o.value[0] - best(np.zeros(n))) < 1e-8, "value")
for i in range(5):
    x = rng.rand(n); v = o.value[0] + o.value_dx[0] @ x + 0.5 * x @ o.value_dxdx[0] @ x; check(abs(v - best(x)) < 1e-7, "the value function is not the minimum over the controls")
'''))
