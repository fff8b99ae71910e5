// Stand-in for the npm package attitude (unit quaternions; axes as longitude and latitude, angles in degrees).
const r = Math.PI / 180;
const versor_fromAxisAngle = ([lon, lat], a) => { const s = Math.sin(a * r / 2); return [Math.cos(a * r / 2), s * Math.cos(lat * r) * Math.cos(lon * r), s * Math.cos(lat * r) * Math.sin(lon * r), s * Math.sin(lat * r)] };
const versor_multiply = ([a, b, c, d], [e, f, g, h]) => [a * e - b * f - c * g - d * h, a * f + b * e + c * h - d * g, a * g - b * h + c * e + d * f, a * h + b * g - c * f + d * e];
// rows: where the rotation takes the axes
const versor_toRotationMatrix = ([w, x, y, z]) => [[1 - 2 * (y * y + z * z), 2 * (x * y + w * z), 2 * (x * z - w * y)], [2 * (x * y - w * z), 1 - 2 * (x * x + z * z), 2 * (y * z + w * x)], [2 * (x * z + w * y), 2 * (y * z - w * x), 1 - 2 * (x * x + y * y)]];
module.exports = {versor_fromAxisAngle, versor_multiply, versor_toRotationMatrix};
