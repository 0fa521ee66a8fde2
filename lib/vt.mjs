// A small terminal: interprets text and escape sequences into a screen, attributes, cursor and modes.
export const PLAIN = { fg: null, bg: null, bold: false, dim: false, italic: false, underlined: false, blink: 0, reverse: false, hidden: false, crossedOut: false };
export class Term {
  constructor(rows = 10, cols = 60) { Object.assign(this, { rows, cols }); this.reset(); }
  reset() {
    this.attr = { ...PLAIN }; this.row = 1; this.col = 1; this.visible = true; this.wrap = true; this.saved = null; this.font = 'B'; this.odd = [];
    this.cells = Array.from({ length: this.rows }, () => this.blank()); this.log = [];
  }
  blank() { return Array.from({ length: this.cols }, () => ({ ch: ' ', attr: PLAIN })); }
  line(r) { return this.cells[r - 1].map(x => x.ch).join('').trimEnd(); }
  screen() { return this.cells.map((_, i) => this.line(i + 1)); }
  up(n = 1) { for (let i = 0; i < Math.min(n, this.rows); i++) { this.cells.shift(); this.cells.push(this.blank()); } }
  down(n = 1) { for (let i = 0; i < Math.min(n, this.rows); i++) { this.cells.pop(); this.cells.unshift(this.blank()); } }
  lf() { if (this.row === this.rows) this.up(); else this.row++; }
  put(ch) {
    if (this.col > this.cols) { if (this.wrap) { this.col = 1; this.lf(); } else this.col = this.cols; }
    this.cells[this.row - 1][this.col - 1] = { ch, attr: { ...this.attr } }; this.log.push([ch, { ...this.attr }]); this.col++;
  }
  at(r, c) { this.row = Math.min(Math.max(r, 1), this.rows); this.col = Math.min(Math.max(c, 1), this.cols); }
  feed(s) {
    for (let i = 0; i < s.length;) {
      const ch = s[i];
      if (ch === '\x1b') {
        const m = /^\x1b(?:\[([?=>]?)([\d;]*)([@-~])|([78c])|\(([A-Z0-9]))/.exec(s.slice(i));
        if (!m) { this.odd.push(s.slice(i, i + 8)); i++; continue; }
        i += m[0].length;
        if (m[4] === '7') this.save(); else if (m[4] === '8') this.restore(); else if (m[4] === 'c') { const o = this.odd; this.reset(); this.odd = o; } else if (m[5]) this.font = m[5];
        else if (m[3] === 'm' && !m[1]) this.sgr(m[2]); else this.csi(m[1], m[2], m[3], m[0]);
      } else { i++; if (ch === '\n') { this.lf(); this.col = 1; } else if (ch === '\r') this.col = 1; else this.put(ch); }
    }
    return this;
  }
  save() { this.saved = { row: this.row, col: this.col, attr: { ...this.attr } }; }
  restore() { if (this.saved) { this.row = this.saved.row; this.col = this.saved.col; this.attr = { ...this.saved.attr }; } }
  csi(pre, args, fin, raw) {
    const n = args.split(';').map(x => x === '' ? undefined : +x), a = Math.max(n[0] ?? 1, 1);
    if (pre === '?') {
      if ('hl'.includes(fin) && n[0] === 25) this.visible = fin === 'h'; else if ('hl'.includes(fin) && n[0] === 7) this.wrap = fin === 'h'; else this.odd.push(raw);
      return;
    }
    const { row, col } = this;
    switch (pre ? '' : fin) {
      case 'A': return this.at(row - a, col); case 'B': return this.at(row + a, col); case 'C': return this.at(row, col + a); case 'D': return this.at(row, col - a);
      case 'E': return this.at(row + a, 1); case 'F': return this.at(row - a, 1); case 'G': return this.at(row, a);
      case 'H': case 'f': return this.at(a, Math.max(n[1] ?? 1, 1));
      case 's': return this.save(); case 'u': return this.restore(); case 'S': return this.up(a); case 'T': return this.down(a);
      case 'K': case 'J': {
        const k = n[0] ?? 0; if (k > 3 || (fin === 'K' && k > 2)) break;
        for (let r = 1; r <= this.rows; r++) for (let c = 1; c <= this.cols; c++) {
          const here = r === row, after = here ? c >= col : fin === 'J' && r > row, before = here ? c <= col : fin === 'J' && r < row;
          if (fin === 'K' && !here || k === 3) continue;
          if (k === 2 || (k === 0 && after) || (k === 1 && before)) this.cells[r - 1][c - 1] = { ch: ' ', attr: PLAIN };
        }
        if (k === 3) this.scrollbackErased = true;
        return;
      }
    }
    this.odd.push(raw);
  }
  sgr(args) {
    const n = (args || '0').split(';').map(x => x === '' ? 0 : +x), t = this.attr;
    for (let i = 0; i < n.length; i++) {
      const v = n[i];
      if (v === 0) Object.assign(t, PLAIN);
      else if (v === 1) t.bold = true; else if (v === 2) t.dim = true; else if (v === 3) t.italic = true; else if (v === 4) t.underlined = true; else if (v === 5) t.blink |= 1; else if (v === 6) t.blink |= 2;
      else if (v === 7) t.reverse = true; else if (v === 8) t.hidden = true; else if (v === 9) t.crossedOut = true;
      else if (v === 22) t.bold = t.dim = false; else if (v === 23) t.italic = false; else if (v === 24) t.underlined = false; else if (v === 25) t.blink = 0; else if (v === 27) t.reverse = false; else if (v === 28) t.hidden = false; else if (v === 29) t.crossedOut = false;
      else if (v >= 30 && v <= 37) t.fg = 'std' + (v - 30); else if (v >= 40 && v <= 47) t.bg = 'std' + (v - 40); else if (v >= 90 && v <= 97) t.fg = 'std' + (v - 82); else if (v >= 100 && v <= 107) t.bg = 'std' + (v - 92);
      else if (v === 39) t.fg = null; else if (v === 49) t.bg = null;
      else if ((v === 38 || v === 48) && n[i + 1] === 5 && n[i + 2] >= 0 && n[i + 2] <= 255) { t[v === 38 ? 'fg' : 'bg'] = 'idx' + n[i + 2]; i += 2; }
      else if ((v === 38 || v === 48) && n[i + 1] === 2 && n.slice(i + 2, i + 5).length === 3 && n.slice(i + 2, i + 5).every(x => x >= 0 && x <= 255)) { t[v === 38 ? 'fg' : 'bg'] = 'rgb' + n.slice(i + 2, i + 5); i += 4; }
      else this.odd.push('SGR ' + args);
    }
  }
}
