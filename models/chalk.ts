// colours: the text itself
const plain = (s) => String(s);
export default Object.assign((s) => String(s), { bold: plain, dim: plain, red: plain, green: plain, yellow: plain, blue: plain, cyan: plain, magenta: plain, gray: plain, grey: plain, white: plain, underline: plain, italic: plain });
