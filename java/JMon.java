// Executes a script of calls of the Java bindings and prints what each one does (see checks/javachild.py).
import com.lightboxtechnologies.lightgrep.*;
import java.io.*;
import java.nio.ByteBuffer;
import java.nio.charset.StandardCharsets;
import java.util.*;

public class JMon {
  static class Boom extends RuntimeException { Boom(String m) { super(m); } }

  static class Cb implements HitCallback {
    final StringBuilder s = new StringBuilder(); int n = 0; final int at;
    Cb(int at) { this.at = at; }
    public void callback(SearchHit h) {
      s.append(' ').append(h.Start).append(',').append(h.End).append(',').append(h.KeywordIndex);
      if (n++ == at) throw new Boom("hit " + at);
    }
  }

  static class Count implements HitCallback {
    long n = 0, sum = 0;
    public void callback(SearchHit h) { ++n; sum += h.Start * 3 + h.End + h.KeywordIndex; }
  }

  static final byte[] CAB = "cab".getBytes(StandardCharsets.US_ASCII);
  static final Map<String,Object> M = new HashMap<String,Object>();
  static byte[] bytes(String h) {
    if (h.equals("-")) return new byte[0];
    final byte[] b = new byte[h.length() / 2];
    for (int i = 0; i < b.length; ++i) b[i] = (byte) Integer.parseInt(h.substring(2*i, 2*i + 2), 16);
    return b;
  }
  static String hex(byte[] b) {
    final StringBuilder s = new StringBuilder(b.length * 2 + 1);
    for (byte x : b) { s.append(Character.forDigit((x >> 4) & 15, 16)).append(Character.forDigit(x & 15, 16)); }
    return s.length() == 0 ? "-" : s.toString();
  }
  static String str(String h) {
    if (h.equals("null")) return null;
    final byte[] b = bytes(h); final char[] c = new char[b.length / 2];
    for (int i = 0; i < c.length; ++i) c[i] = (char) (((b[2*i] & 255) << 8) | (b[2*i + 1] & 255));
    return new String(c);
  }
  static String enc(String s) {
    if (s == null) return "null";
    final byte[] b = new byte[s.length() * 2];
    for (int i = 0; i < s.length(); ++i) { b[2*i] = (byte) (s.charAt(i) >> 8); b[2*i + 1] = (byte) s.charAt(i); }
    return hex(b);
  }
  @SuppressWarnings("unchecked") static <T> T get(String id) { return (T) M.get(id); }
  static KeyOptions ko(String[] a) { final KeyOptions k = new KeyOptions(); k.FixedString = a[3].equals("1"); k.CaseInsensitive = a[4].equals("1"); k.UnicodeMode = a[5].equals("1"); return k; }
  static ProgramOptions po(String s) { if (s.equals("null")) return null; final ProgramOptions p = new ProgramOptions(); p.Determinize = s.equals("1"); return p; }
  static String info(PatternInfo p) { return enc(p.Pattern) + " " + enc(p.EncodingChain) + " " + p.UserIndex; }

  /** A buffer of a kind, positioned at off. */
  static ByteBuffer buf(String kind, byte[] b, int off) {
    ByteBuffer r;
    if (kind.startsWith("direct")) { r = ByteBuffer.allocateDirect(b.length); r.put(b); r.flip(); }
    else if (kind.startsWith("slice")) {
      final byte[] c = new byte[b.length + 13]; System.arraycopy(b, 0, c, 7, b.length);
      final ByteBuffer w = ByteBuffer.wrap(c); w.position(7); w.limit(7 + b.length); r = w.slice();
    }
    else if (kind.startsWith("dslice")) {
      final ByteBuffer w = ByteBuffer.allocateDirect(b.length + 13); w.position(7); w.put(b); w.position(7); w.limit(7 + b.length); r = w.slice();
    }
    else r = ByteBuffer.wrap(b);
    if (kind.endsWith("ro")) r = r.asReadOnlyBuffer();
    r.position(off);
    return r;
  }

  /** Resident bytes of this process. */
  static long rss() throws IOException {
    try (BufferedReader r = new BufferedReader(new InputStreamReader(new FileInputStream("/proc/self/statm")))) { return Long.parseLong(r.readLine().split(" ")[1]) * 4096; }
  }

  static String run(String[] a) throws Throwable {
    switch (a[0]) {
    case "cycle": {                       // a whole life: pattern, program, context, search, decoder
      try (PatternHandle p = new PatternHandle(); FSMHandle f = new FSMHandle(1, 16); DecoderHandle d = new DecoderHandle()) {
        p.parsePattern("ab", new KeyOptions()); f.addPattern(p, "UTF-8", 1);
        try (ProgramHandle g = new ProgramHandle(1)) { g.compile(f, new ProgramOptions()); try (ContextHandle c = g.createContext(new ContextOptions())) {
          final Count n = new Count(); c.search(CAB, 0, CAB.length, 0, n); c.closeoutSearch(n); LGUtil.getHitContext(d, CAB, 0, CAB.length, 0, 1, 3, "UTF-8", 5, 32);
          final byte[] b = new byte[g.size()]; g.write(b, 0); try (ProgramHandle r = ProgramHandle.read(b, 0, b.length); ContextHandle e = r.createContext(new ContextOptions())) { e.search(CAB, 0, CAB.length, 0, n); }
        } }
      }
      return "OK";
    }
    case "fsm": M.put(a[1], new FSMHandle(Integer.parseInt(a[2]), Integer.parseInt(a[3]))); return "OK";
    case "pat": M.put(a[1], new PatternHandle()); return "OK";
    case "dec": M.put(a[1], new DecoderHandle()); return "OK";
    case "prog": M.put(a[1], new ProgramHandle(Integer.parseInt(a[2]))); return "OK";
    case "parse": return "OK " + ((PatternHandle) get(a[1])).parsePattern(str(a[2]), a[3].equals("null") ? null : ko(a));
    case "add": return "OK " + ((FSMHandle) get(a[1])).addPattern((PatternHandle) get(a[2]), str(a[3]), Integer.parseInt(a[4]));
    case "fcount": return "OK " + ((FSMHandle) get(a[1])).count();
    case "pcount": return "OK " + ((ProgramHandle) get(a[1])).count();
    case "finfo": return "OK " + info(((FSMHandle) get(a[1])).getPatternInfo(Integer.parseInt(a[2])));
    case "pinfo": return "OK " + info(((ProgramHandle) get(a[1])).getPatternInfo(Integer.parseInt(a[2])));
    case "fgetu": return "OK " + ((FSMHandle) get(a[1])).getUserIndex(Integer.parseInt(a[2]));
    case "pgetu": return "OK " + ((ProgramHandle) get(a[1])).getUserIndex(Integer.parseInt(a[2]));
    case "fsetu": ((FSMHandle) get(a[1])).setUserIndex(Integer.parseInt(a[2]), Integer.parseInt(a[3])); return "OK";
    case "psetu": ((ProgramHandle) get(a[1])).setUserIndex(Integer.parseInt(a[2]), Integer.parseInt(a[3])); return "OK";
    case "compile": return "OK " + ((ProgramHandle) get(a[1])).compile((FSMHandle) get(a[2]), po(a[3]));
    case "size": return "OK " + ((ProgramHandle) get(a[1])).size();
    case "write": {
      final byte[] b = new byte[Integer.parseInt(a[3])]; Arrays.fill(b, (byte) 0x5a);
      ((ProgramHandle) get(a[1])).write(b, Integer.parseInt(a[2])); return "OK " + hex(b);
    }
    case "read": {
      final byte[] b = bytes(a[2]);
      final ProgramHandle p = ProgramHandle.read(b, Integer.parseInt(a[3]), Integer.parseInt(a[4]));
      Arrays.fill(b, (byte) 0xcc);        // the caller's array is the caller's again
      M.put(a[1], p); return "OK";
    }
    case "ctx": M.put(a[1], ((ProgramHandle) get(a[2])).createContext(a.length > 3 ? null : new ContextOptions())); return "OK";
    case "search": case "starts": {       // CTX KIND HEX OFF SIZE START THROW
      final ContextHandle c = get(a[1]); final byte[] b = bytes(a[3]);
      final int off = Integer.parseInt(a[4]), size = Integer.parseInt(a[5]), at = Integer.parseInt(a[7]); final long start = Long.parseLong(a[6]);
      final Cb cb = at == -2 ? null : new Cb(at); String r = "OK"; int pos = 0; ByteBuffer bb = null;
      try {
        if (a[2].equals("array")) {
          if (a[0].equals("search")) r += " " + c.search(b, off, size, start, cb); else c.startsWith(b, off, size, start, cb);
        }
        else {
          bb = buf(a[2], b, off);
          if (a[0].equals("search")) r += " " + c.search(bb, size, start, cb); else c.startsWith(bb, size, start, cb);
        }
      }
      catch (Throwable t) { r = "EX " + t.getClass().getName() + " " + enc(t.getMessage()); }
      if (bb != null && bb.position() != off) r += " position " + bb.position();
      return r + " |" + (cb == null ? "" : cb.s);
    }
    case "closeout": {
      final Cb cb = new Cb(Integer.parseInt(a[2])); String r = "OK";
      try { ((ContextHandle) get(a[1])).closeoutSearch(cb); }
      catch (Throwable t) { r = "EX " + t.getClass().getName() + " " + enc(t.getMessage()); }
      return r + " |" + cb.s;
    }
    case "reset": ((ContextHandle) get(a[1])).reset(); return "OK";
    case "many": {                        // CTX SIZE: a search with a hit at every byte
      final byte[] b = new byte[Integer.parseInt(a[2])]; Arrays.fill(b, (byte) 'a'); final Count n = new Count(); final ContextHandle c = get(a[1]);
      c.search(b, 0, b.length, 0, n); c.closeoutSearch(n); return "OK " + n.n + " " + n.sum;
    }
    case "hctx": {                        // DEC KIND HEX OFF SIZE START IB IE ENC WIN REPL
      final byte[] b = bytes(a[3]); final int off = Integer.parseInt(a[4]), size = Integer.parseInt(a[5]), win = Integer.parseInt(a[10]), repl = Integer.parseInt(a[11]);
      final long start = Long.parseLong(a[6]), ib = Long.parseLong(a[7]), ie = Long.parseLong(a[8]); HitContext h; ByteBuffer bb = null;
      if (a[2].equals("array")) h = LGUtil.getHitContext((DecoderHandle) get(a[1]), b, off, size, start, ib, ie, str(a[9]), win, repl);
      else { bb = buf(a[2], b, off); h = LGUtil.getHitContext((DecoderHandle) get(a[1]), bb, size, start, ib, ie, str(a[9]), win, repl); }
      return "OK " + h.Begin + " " + h.End + " " + h.HitBegin + " " + h.HitEnd + " " + h.Bad + " " + enc(h.Decoded) + (bb != null && bb.position() != off ? " position " + bb.position() : "");
    }
    case "repeat": {                      // N LIMIT COMMAND...: memory that every failing or completed call leaves behind
      final int n = Integer.parseInt(a[1]); final long limit = Long.parseLong(a[2]), t0 = System.nanoTime(); final String[] c = Arrays.copyOfRange(a, 3, a.length);
      long least = Long.MAX_VALUE;        // what the JVM needs for itself comes once; a leak grows in every round
      for (int round = -1; round < 3; ++round) {
        final long before = rss();
        for (int i = 0; i < n; ++i) { try { run(c); } catch (Exception e) { } }
        final long grown = (rss() - before) / 1024;
        if (round >= 0) least = Math.min(least, grown);
      }
      if (System.getenv("LG_SLOW") != null) System.err.println(String.join(" ", c) + ": " + n + " " + least + " KiB in " + (System.nanoTime() - t0) / 1000000 + " ms");
      return least <= limit ? "OK" : "OK but each of three times " + n + " calls has the process grow by at least " + least + " KiB";
    }
    case "destroy": { final Object o = get(a[1]); ((AutoCloseable) o).close(); return "OK"; }
    case "drop": M.remove(a[1]); return "OK";
    case "gc": {
      System.gc(); final List<byte[]> l = new ArrayList<byte[]>();
      for (int i = 0; i < 20; ++i) { final byte[] b = new byte[4096]; Arrays.fill(b, (byte) 0xcc); l.add(b); }
      System.gc(); return "OK";
    }
    case "end": for (Object o : M.values()) ((AutoCloseable) o).close(); M.clear(); return "OK";
    }
    throw new Error("no such command " + a[0]);
  }

  public static void main(String[] args) throws Throwable {
    final BufferedReader in = new BufferedReader(new InputStreamReader(new FileInputStream(args[0]), StandardCharsets.US_ASCII));
    final PrintStream out = new PrintStream(new FileOutputStream(args[1]), false, "US-ASCII");
    String l; int n = 0;
    while ((l = in.readLine()) != null) {
      if (l.startsWith("case ")) { out.println(l); out.flush(); continue; }
      String r;
      try { r = run(l.split(" ")); }
      catch (Throwable t) { r = "EX " + t.getClass().getName() + " " + enc(t.getMessage()); }
      out.println(r);
    }
    out.println("done"); out.close();
  }
}
