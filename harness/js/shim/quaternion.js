// quaternion 2.x: the part the viewer uses
function Q(w, x, y, z) { if (!(this instanceof Q)) return new Q(w, x, y, z); this.w = w; this.x = x; this.y = y; this.z = z }
Q.fromAxisAngle = function (a, t) {
  const n = Math.hypot(a[0], a[1], a[2]), s = Math.sin(t / 2) / (n || 1);
  return new Q(Math.cos(t / 2), a[0] * s, a[1] * s, a[2] * s);
};
Q.prototype.toMatrix = function (d2) {
  const {w, x, y, z} = this, n = w * w + x * x + y * y + z * z, s = n === 0 ? 0 : 2 / n;
  const m = [1 - s * (y * y + z * z), s * (x * y - w * z), s * (x * z + w * y),
    s * (x * y + w * z), 1 - s * (x * x + z * z), s * (y * z - w * x),
    s * (x * z - w * y), s * (y * z + w * x), 1 - s * (x * x + y * y)];
  return d2 ? [m.slice(0, 3), m.slice(3, 6), m.slice(6)] : m;
};
module.exports = Q;
