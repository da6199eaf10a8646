WR = ["a *= 2", "a[0] = 1", "a[:] = 0", "a += 1", "np.clip(a, 0, None, out=a)", "xp.multiply(a, 2, out=a)", "a.sort()", "a.fill(0)", "xp.nan_to_num(a, copy=False)",
      "xp.add(a, 1, a)", "xp.copyto(a, 0)", "xp.put(a, 0, 1)", "xp.fill_diagonal(a, 0)", "xp.add.at(a, 0, 1)", "a.ravel()[0] = 1", "a.reshape(-1)[0] = 1", "a.T[0] = 1",
      "a.flat[0] = 1", "b = xp.asarray(a)\nb[0] = 1", "b = a[1:]\nb -= 1", "b = a.view()\nb[0] = 1", "b = xp.squeeze(a)\nb[0] = 1", "b = xp.atleast_1d(a)\nb[0] = 1", "b = self.to_xp(a)\nb[0] = 1",
      "b = a.astype(self.dtype, copy=False)\nb[0] = 1", "b = xp.ascontiguousarray(a)\nb[0] = 1", "from copy import copy\nc = copy(v1)\nc.value[0] = 1", "d = {'x': a}\nd['x'][0] = 1",
      "l = [a]\nl[0][0] = 1", "for b in [a]:\n    b[0] = 1", "p, q = a, 0\np[0] = 1", "v1.value = 0", "setattr(v1, 'value', 0)", "v1.generation_time = 3", "getattr(v1, 'value')[0] = 1", "vars(v1)['value'][0] = 1",
      "v1.set_value(a * 2)", "f = lambda z: z.fill(0)\nf(a)", "def g(z):\n    z[0] = 1\ng(a)", "xp.minimum(a, 3, out=a[:])", "a.real[0] = 1", "b = xp.swapaxes(a, 0, 0)\nb[0] = 1", "b = a.transpose()\nb *= 2",
      "b = a if self.mul else a * 2\nb[0] = 1", "b = xp.array(a, copy=False)\nb[0] = 1", "b = xp.reshape(a, -1)\nb[0] = 1", "xp.random.shuffle(a)", "b = xp.split(a, 2)[0]\nb[0] = 1", "b = xp.real(a)\nb[0]=1",
      "b = xp.moveaxis(a, 0, 0)\nb[0] = 1", "b = a[None, :]\nb[0, 0] = 1", "self.keep = a\nself.keep[0] = 1", "a.partition(2)", "xp.place(a, a > 1, 0)", "xp.putmask(a, a > 1, 0)", "a.itemset(0, 1)", "a.resize(3)", "a.put(0, 1)",
      "b = xp.broadcast_to(a, a.shape)\nb[0] = 1", "b = xp.expand_dims(a, 0)\nb[0] = 1", "b = xp.concatenate((a, a))\na[1] = 0", "xp.subtract(a, 1, out=(a,))", "a.__setitem__(0, 1)", "a.__imul__(2)", "import operator\noperator.imul(a, 2)", "xp.divide(a, 2, where=a > 1, out=a)", "xp.power(a, 2, out=a)",
      "b = xp.require(a)\nb[0] = 1", "it = iter([a])\nnext(it)[0] = 1", "m = map(lambda z: z, [a])\nlist(m)[0][0] = 1", "z = list(zip([a], [1]))\nz[0][0][0] = 1", "self.local_inputs['in_value1'].value *= 2", "self.inputs['in_value1'].get(self.target_device_idx).value[0] = 1",
      "for k, o in self.local_inputs.items():\n    o.value[0] = 1", "for o in self.local_inputs.values():\n    o.generation_time = 1", "a[a > 1], b = 0, 1", "(a[0], a[1]) = (1, 2)", "a[0], c = divmod(3, 2)", "with self.xp.errstate():\n    a /= 2", "xp.exp(a, out=a)", "a.clip(0, 1, out=a)", "a.cumsum(out=a)", "xp.cumsum(a, out=a)", "xp.take(a, [0], out=a)", "xp.dot(a, a, out=a)", "a.byteswap(inplace=True)", "xp.fft.fft(a, out=a)",
      "xp.logical_not(a, out=a)", "xp.maximum.accumulate(a, out=a)", "xp.nan_to_num(a, False)", "b = a.squeeze()\nb.fill(0)", "b = xp.diagonal(a)\nb[0] = 1", "b = xp.flip(a)\nb[0]=1", "b = a[::-1]\nb[0]=1", "b = xp.array_split(a, 3)\nb[1][:] = 0", "b, c = xp.hsplit(a, 2)\nb[:] = 0", "b = xp.rollaxis(a, 0)\nb[0] = 1", "b = xp.nditer(a)\nb[0][...] = 1", "self.v2 = a\nself.v2 *= 3", "b = dict(x=a)\nfor k, z in b.items():\n    z[0] = 0", "b = (a,)\nb[0][0] = 1", "b = [x for x in (a,)]\nb[0][0] = 1", "b = {k: v for k, v in [('x', a)]}\nb['x'][0] = 1", "b = a or 3\nb[0] = 1", "(b := a)[0] = 1", "b = c = a\nc[0] = 1", "try:\n    b = a\nfinally:\n    b[0] = 1", "while True:\n    a[0] = 1\n    break", "from functools import partial\npartial(xp.multiply, a, 2, out=a)()", "def g():\n    a[0] = 1\ng()", "m = a.fill\nm(0)", "getattr(a, 'fill')(0)", "kw = {'out': a}\nxp.multiply(a, 2, **kw)", "ar = (a, 2, a)\nxp.multiply(*ar)", "v1.value[...] = 0", "v1.__dict__['value'] = 0", "v1.__dict__.update(value=0)", "del v1.value", "delattr(v1, 'value')", "memoryview(a)[0] = 1"]
for w in WR:
    T('P02', 'V', w)
RD = ["b = a * 2\nb[0] = 1", "b = a.copy()\nb[0] = 1", "b = xp.array(a)\nb[0] = 1", "b = a.astype(self.dtype)\nb[0] = 1", "b = xp.concatenate((a, a))\nb[0] = 1", "b = a[a > 1]\nb[0] = 1", "b = a[[0, 1]]\nb[0] = 1", "b = xp.zeros_like(a)\nb += a", "b = xp.where(a > 1, a, 0)\nb[0] = 1", "b = xp.clip(a, 0, 1)\nb[0] = 1", "b = a.flatten()\nb[0] = 1", "b = xp.sort(a)\nb[0] = 1", "b = list(a)\nb[0] = 1", "b = float(a[0])\nb += 1", "b = a.mean()\nb += 1", "b = len(a)\nb += 1", "from copy import deepcopy\nb = deepcopy(v1)\nb.value[0] = 1", "b = self.to_xp(a, force_copy=True)\nb[0] = 1", "b = xp.tile(a, 2)\nb[0] = 1", "b = xp.abs(a)\nb[0] = 1", "b = xp.stack([a, a])\nb[0] = 1", "b = xp.hstack([a, a])\nb[0] = 1", "b = xp.take(a, [0])\nb[0] = 1", "b = xp.roll(a, 1)\nb[0] = 1", "b = xp.repeat(a, 2)\nb[0] = 1", "b = a.sum(axis=0)\nb *= 2", "b = a - a.min()\nb /= 2", "b = xp.full_like(a, 0)\nb[:] = a", "n = a.size\nn *= 2", "s = list(a.shape)\ns[0] = 3", "t = v1.generation_time\nt += 1", "b = xp.nan_to_num(a)\nb[0] = 1", "b = xp.multiply(a, 2)\nb[0] = 1", "b = xp.empty(3)\nxp.multiply(a, 2, out=b)", "b = -a\nb[0] = 1", "b = a.cumsum()\nb[0] = 1", "b = xp.outer(a, a)\nb[0] = 1", "b = a @ a\nb += 1", "b = sorted(a)\nb[0] = 1", "b = a.tolist()\nb[0] = 1", "d = {'x': a}\nd['x'] = 1", "l = [a]\nl[0] = 1", "l = [a]\nl.append(1)", "b = a\nb = b * 2\nb[0] = 1", "b = xp.mean(a, axis=0)\nb[0] = 1", "b = xp.max(a)\nb += 1", "b = xp.interp(a, a, a)\nb[0] = 1", "b = xp.cumsum(a)\nb[0] = 1", "b = xp.dot(a, a)\nb[0] = 0", "b = xp.pad(a, 2)\nb[0] = 0", "b = a.round()\nb[0] = 1", "b = a.repeat(2)\nb[0] = 1", "b = xp.delete(a, 0)\nb[0] = 1", "b = xp.insert(a, 0, 1)\nb[0] = 1", "b = xp.append(a, 1)\nb[0] = 1", "b = xp.diff(a)\nb[0] = 1", "b = xp.sqrt(a)\nb[0] = 1", "b = a.conj()\nb[0] = 1", "b = xp.linalg.norm(a)\nb += 1", "b = xp.sum(a)\nb += 1", "b = a.dot(a)\nb += 1"]
for w in RD:
    T('P02', 'Q', w)

# P05: outputs that share memory with an input
for w in ["out.value = a", "out.value = a[:]", "out.value = a.T", "out.value = xp.asarray(a)", "out.value = self.to_xp(a)", "out.value = xp.squeeze(a)", "out.value = a.astype(self.dtype, copy=False)",
          "out.value = a if self.mul else a * 1", "b = {'v': a}\nout.value = b['v']", "out.value = [a, 0][0]", "setattr(out, 'value', a)", "self.outputs['out_value'].value = a",
          "for o in self.outputs.values():\n    o.value = a", "self.keep = a\nout.value = self.keep", "def g(z):\n    return z\nout.value = g(a)", "out.value = (lambda z: z)(a)",
          "out.value = xp.array(a, copy=False)", "out.value = xp.ascontiguousarray(a, dtype=self.dtype)", "out.value = xp.atleast_1d(a)", "out.value = a.reshape(-1)", "out.value = a.ravel()",
          "out.value = xp.real(a)", "out.value = v1.get_value()", "out.value = getattr(v1, 'value')", "c = copy.copy(v1)\nout.value = c.value", "out.__dict__['value'] = a", "out.value, z = a, 1",
          "out.value = b = a", "if (b := a) is not None:\n    out.value = b", "try:\n    out.value = a\nexcept ValueError:\n    out.value = a * 2", "with np.errstate(all='ignore'):\n    out.value = a",
          "out.value = next(iter([a]))", "out.value = max([a], key=len)", "out.value = [z for z in [a]][0]", "out.value = list(map(lambda z: z, [a]))[0]", "out.value = a.view(a.dtype)",
          "out.value = a or a", "out.value = xp.require(a, self.dtype)", "out.value = xp.broadcast_to(a, a.shape)", "out.value = a[None][0]", "out.value = xp.split(a, 1)[0]", "out.value = v1.value",
          "out.value = self.local_inputs.get('in_value1').value", "out.value = self.inputs['in_value1'].get(self.target_device_idx).value", "x = out\nx.value = a"]:
    T('P05', 'V', w)
for w in ["out.value = a * 1", "out.value = a.copy()", "out.value[:] = a", "out.value = xp.array(a)", "out.value = a.astype(self.dtype)", "out.value = a + 0", "out.value = xp.copy(a)", "out.value = -a", "out.value = a[a > 0]",
          "out.value = a[[0, 1]]", "out.value = xp.concatenate((a, a))", "out.value = xp.where(a > 0, a, 0)", "out.value = xp.stack([a])", "out.set_value(a)", "xp.copyto(out.value, a)", "xp.multiply(a, 2, out=out.value)",
          "out.value = xp.maximum(a, 0)", "out.value = copy.deepcopy(a)", "out.value = xp.array([x for x in a])", "out.value = xp.sum(a)", "out.value = float(a[0])", "out.value = a.sum()", "out.value = xp.full_like(a, 2)",
          "out.value = xp.tile(a, 2)", "out.value = a.flatten()", "out.value = xp.repeat(a, 2)", "out.value = xp.linalg.norm(a)", "out.value = a @ a", "out.value = xp.cumsum(a)", "out.value = xp.roll(a, 1)"]:
    T('P05', 'Q', w)
# P12: kept over steps
S = "self.h = []\nself.d = {}\nself.prev = None\nself.buf = xp.zeros(4)\nself.n = 0\nself.q = deque()"
for w in ["self.h.append(a)", "self.h.append(a[:])", "self.h += [a]", "self.h.insert(0, a)", "self.h.extend([a])", "self.h = self.h + [a]", "self.d[self.current_time] = a", "self.d[self.n] = a\nself.n += 1",
          "self.d.setdefault(self.current_time, a)", "self.d.update({self.current_time: a})", "self.h.append((self.current_time, a))", "self.h.append({'v': a})", "self.buf[:] = a\nself.h.append(self.buf)",
          "self.buf[:] = a\nself.h.append(self.buf[1:])", "if self.prev is not None:\n    out.value[:] = a - self.prev\nself.prev = a", "self.h.append(xp.asarray(a))", "self.q.append(a)", "self.q.appendleft(a)",
          "z = self.h\nz.append(a)", "def keep(x):\n    self.h.append(x)\nkeep(a)", "self.h = [a] + self.h[:3]", "self.h = [*self.h, a]", "self.h[len(self.h):] = [a]", "out.value[:] = a\nself.h.append(out.value)",
          "self.h.append(v1)", "self.h.append(copy.copy(v1))", "self.d.setdefault('x', []).append(a)", "f = self.h.append\nf(a)", "self.h.append(a.ravel())", "self.h.append(a.reshape(2, -1))", "self.h.append(a.astype(self.dtype, copy=False))",
          "self.h.append(self.to_xp(a))", "self.h.append(cpuArray(a))", "self.h.append(a if self.mul else a.copy())", "out.value[:] = a\nself.h.append(out)", "if self.prev is None:\n    self.prev = a\nout.value[:] = a - self.prev"]:
    T('P12', 'V', w, S)
for w in ["self.h.append(a.copy())", "self.h.append(a * 2)", "self.h.append(xp.array(a))", "self.d[self.current_time] = a.copy()", "self.d[self.current_time] = copy.deepcopy(v1)", "self.h.append(float(a[0]))", "self.h.append(xp.sum(a))",
          "self.prev = a.copy()", "self.buf[:] = a", "self.buf = self.buf * 0.9 + a", "self.h.append(self.current_time)", "self.h = [a]", "self.cur = a\nout.value[:] = self.cur", "self.h.append(a.tolist())", "self.h.append(cpuArray(a).copy())",
          "self.buf[:] = a\nself.h.append(self.buf.copy())", "self.h.append(len(a))", "self.h.append(a.shape)", "l = []\nl.append(a)\nout.value[:] = l[0]", "self.h.append(copy.deepcopy(out))", "self.n += 1", "self.h.append(a + 0)"]:
    T('P12', 'Q', w, S)
# P13: results piled up
S = "self.buf = xp.zeros(4)\nself.bufs = [xp.zeros(4), xp.zeros(4)]\nself.n = 0"
for w in ["out.value += a", "self.buf += a\nout.value[:] = self.buf", "out.value -= a", "out.value *= a", "out.value[:] += a", "out.value[0] += 1", "out.value /= 2", "xp.add(out.value, a, out=out.value)", "b = out.value\nb += a",
          "b = out.value[1:]\nb += a[1:]", "for i in range(3):\n    out.value += a", "self.bufs[0] += a\nout.value[:] = self.bufs[0]", "for b in self.bufs:\n    b += a", "out.value[:] = out.value + a", "out.value = out.value + a",
          "self.buf = self.buf + a\nout.value[:] = self.buf", "xp.add.at(out.value, 0, 1)", "out.value[:] = xp.add(out.value, a)", "xp.multiply(out.value, a, out.value)", "out.value.__iadd__(a)", "self.n += 1\nout.value[:] = a * self.n",
          "def acc(x, y):\n    x += y\nacc(out.value, a)", "self.outputs['out_value'].value += a", "v = self.out_value\nv.value += a", "setattr(out, 'value', out.value + a)", "out.value[a > 0] += 1", "if self.mul:\n    out.value += a",
          "if self.mul:\n    out.value[:] = 0\nelse:\n    out.value += a", "out.value += a\nout.value[:] = out.value", "self.s = getattr(self, 's', 0) + a\nout.value[:] = self.s"]:
    T('P13', 'V', w, S)
for w in ["out.value[:] = 0\nout.value += a", "out.value.fill(0)\nout.value += a", "out.value *= 0\nout.value += a", "out.value = a * 2\nout.value += 1", "b = a * 2\nb += 1\nout.value[:] = b", "out.value[:] = a\nout.value *= 2",
          "self.buf[:] = 0\nfor i in range(3):\n    self.buf += a\nout.value[:] = self.buf", "self.buf[...] = a\nself.buf -= 1\nout.value[:] = self.buf", "out.value = xp.zeros_like(a)\nout.value += a", "xp.copyto(out.value, a)\nout.value += 1",
          "xp.multiply(a, 2, out=out.value)\nout.value += 1", "out.set_value(a)\nout.value += 1", "for b in self.bufs:\n    b[:] = 0\n    b += a", "k = 0\nfor i in range(3):\n    k += 1\nout.value[:] = a * k", "out.value[:] = self.buf\nout.value += a",
          "b = out.value\nb[:] = a\nb += 1", "out.value[:] = a - out.value.mean() * 0"]:
    T('P13', 'Q', w, S)
# P01: time stamps
for w in ["out.value[:] = a", "out.value[:] = a\nout.generation_time = self.current_time - 1", "out.value[:] = a\nout.generation_time = v1.generation_time", "out.value[:] = a\nif self.mul:\n    out.generation_time = self.current_time",
          "out.value[:] = a\nout.generation_time = 0", "out.generation_time = self.current_time\nout.value[:] = a\nout.generation_time = -1", "out.value[:] = a\nout.generation_time = self.current_time_seconds", "out.value = a * 2",
          "out.set_value(a)", "xp.copyto(out.value, a)", "self.outputs['out_value'].value[:] = a", "b = out.value\nb[:] = a", "b = out.value[2:]\nb += 1", "try:\n    out.value[:] = a\n    out.generation_time = self.current_time\nexcept ValueError:\n    out.value[:] = 0",
          "if a.sum() > 3:\n    out.value[:] = 0\n    return\nout.value[:] = a\nout.generation_time = self.current_time", "out.value[:] = a\nout.generation_time = self.current_time + 1", "out.value[:] = a\nout.generation_time = self.last_seen",
          "out.value[:] = a\nt = self.current_time\nt = t + 1\nout.generation_time = t", "out.value[:] = a\nout.generation_time = max(v1.generation_time, 0)", "out.value[:] = a\nout.generation_time = None", "xp.multiply(a, 2, out=out.value)",
          "out.value[:] = a\nself.generation_time = self.current_time", "out.value[:] = a\nout.generation_time = int(time.time())", "for i in range(len(a)):\n    out.value[i] = a[i]", "out.value.fill(0)", "out.value.sort()"]:
    T('P01', 'V', w)
for w in ["out.value[:] = a\nout.generation_time = self.current_time", "out.generation_time = self.current_time\nout.value[:] = a", "t = self.current_time\nout.value[:] = a\nout.generation_time = t", "out.value[:] = a\nsetattr(out, 'generation_time', self.current_time)",
          "for o in self.outputs.values():\n    o.value = a * 2\n    o.generation_time = self.current_time", "if self.mul:\n    return\nout.value[:] = a\nout.generation_time = self.current_time", "self.outputs['out_value'].generation_time = self.current_time\nout.set_value(a)",
          "try:\n    out.value[:] = a\nfinally:\n    out.generation_time = self.current_time", "def stamp(o):\n    o.generation_time = self.current_time\nout.value[:] = a\nstamp(out)", "out.value = out.value", "pass"]:
    T('P01', 'Q', w)
