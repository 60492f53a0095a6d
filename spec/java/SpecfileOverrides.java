import java.util.ArrayList;
import java.util.Collections;
import java.util.IdentityHashMap;
import java.util.List;
import java.util.Map;

import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.SetEnumValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.Value;
import tlc2.value.impl.Enumerable;
import tlc2.value.impl.ValueEnumeration;

/**
 * Evaluation of the character loops of Text.tla and ValueNodes.tla in Java.
 * Only an accelerator: the TLA+ definitions are the reference, and
 * tools/selftest.py checks that both give the same results.
 */
public class SpecfileOverrides implements ITLCOverrides {
  @Override
  public Class<?>[] get() {
    return new Class<?>[] {SpecfileOverrides.class};
  }

  private static String str(Value v) {
    return ((StringValue) v).val.toString();
  }

  private static int num(Value v) {
    return ((IntValue) v).val;
  }

  private static final Map<Object, boolean[]> CACHE =
      Collections.synchronizedMap(new IdentityHashMap<Object, boolean[]>());

  /** membership table for a set of one-character strings */
  private static boolean[] table(Value set) {
    boolean[] t = CACHE.get(set);
    if (t != null) return t;
    t = new boolean[65536];
    ValueEnumeration e = ((Enumerable) set).elements();
    Value x;
    int n = 0;
    while ((x = e.nextElement()) != null) {
      String s = str(x);
      if (s.length() == 1) t[s.charAt(0)] = true;
      n++;
    }
    if (CACHE.size() < 500) CACHE.put(set, t);
    return t;
  }

  private static final class CharSet {
    final boolean[] t;
    final String few;

    CharSet(Value set) {
      boolean[] c = CACHE.get(set);
      if (c != null) {
        t = c;
        few = null;
        return;
      }
      if (set instanceof SetEnumValue && ((SetEnumValue) set).elems.size() <= 4) {
        StringBuilder b = new StringBuilder();
        SetEnumValue s = (SetEnumValue) set;
        for (int i = 0; i < s.elems.size(); i++) {
          String x = str(s.elems.elementAt(i));
          if (x.length() == 1) b.append(x);
        }
        t = null;
        few = b.toString();
      } else {
        t = table(set);
        few = null;
      }
    }

    boolean has(char c) {
      return t != null ? t[c] : few.indexOf(c) >= 0;
    }
  }

  @TLAPlusOperator(identifier = "SpanEnd", module = "Text", warn = false)
  public static Value spanEnd(final Value s, final Value i, final Value c) {
    String x = str(s);
    int j = num(i);
    CharSet t = new CharSet(c);
    while (j <= x.length() && t.has(x.charAt(j - 1))) j++;
    return IntValue.gen(j);
  }

  @TLAPlusOperator(identifier = "FindAny", module = "Text", warn = false)
  public static Value findAny(final Value s, final Value i, final Value c) {
    String x = str(s);
    int j = num(i);
    CharSet t = new CharSet(c);
    while (j <= x.length() && !t.has(x.charAt(j - 1))) j++;
    return IntValue.gen(j);
  }

  @TLAPlusOperator(identifier = "SpanBack", module = "Text", warn = false)
  public static Value spanBack(final Value s, final Value j, final Value c) {
    String x = str(s);
    int k = num(j);
    CharSet t = new CharSet(c);
    while (k >= 1 && t.has(x.charAt(k - 1))) k--;
    return IntValue.gen(k);
  }

  @TLAPlusOperator(identifier = "IndexFrom", module = "Text", warn = false)
  public static Value indexFrom(final Value s, final Value i, final Value p) {
    return IntValue.gen(str(s).indexOf(str(p), num(i) - 1) + 1);
  }

  @TLAPlusOperator(identifier = "HasAny", module = "Text", warn = false)
  public static Value hasAny(final Value s, final Value c) {
    String x = str(s);
    CharSet t = new CharSet(c);
    for (int k = 0; k < x.length(); k++) if (t.has(x.charAt(k))) return BoolValue.ValTrue;
    return BoolValue.ValFalse;
  }

  @TLAPlusOperator(identifier = "AllIn", module = "Text", warn = false)
  public static Value allIn(final Value s, final Value c) {
    String x = str(s);
    CharSet t = new CharSet(c);
    for (int k = 0; k < x.length(); k++) if (!t.has(x.charAt(k))) return BoolValue.ValFalse;
    return BoolValue.ValTrue;
  }

  @TLAPlusOperator(identifier = "Lower", module = "Text", warn = false)
  public static Value lower(final Value s) {
    String x = str(s);
    char[] r = x.toCharArray();
    for (int k = 0; k < r.length; k++) if (r[k] >= 'A' && r[k] <= 'Z') r[k] += 32;
    return new StringValue(new String(r));
  }

  @TLAPlusOperator(identifier = "Upper", module = "Text", warn = false)
  public static Value upper(final Value s) {
    String x = str(s);
    char[] r = x.toCharArray();
    for (int k = 0; k < r.length; k++) if (r[k] >= 'a' && r[k] <= 'z') r[k] -= 32;
    return new StringValue(new String(r));
  }

  private static Value[] elems(Value q) {
    Value t = q.toTuple();
    return t == null ? null : ((TupleValue) t).elems;
  }

  @TLAPlusOperator(identifier = "Cat", module = "Text", warn = false)
  public static Value cat(final Value q) {
    StringBuilder b = new StringBuilder();
    for (Value v : elems(q)) b.append(str(v));
    return new StringValue(b.toString());
  }

  @TLAPlusOperator(identifier = "JoinWith", module = "Text", warn = false)
  public static Value joinWith(final Value q, final Value sep) {
    StringBuilder b = new StringBuilder();
    String d = str(sep);
    boolean first = true;
    for (Value v : elems(q)) {
      if (!first) b.append(d);
      first = false;
      b.append(str(v));
    }
    return new StringValue(b.toString());
  }

  @TLAPlusOperator(identifier = "SplitOn", module = "Text", warn = false)
  public static Value splitOn(final Value s, final Value p) {
    String x = str(s), d = str(p);
    List<Value> r = new ArrayList<>();
    int i = 0, k;
    while ((k = x.indexOf(d, i)) >= 0) {
      r.add(new StringValue(x.substring(i, k)));
      i = k + d.length();
    }
    r.add(new StringValue(x.substring(i)));
    return new TupleValue(r.toArray(new Value[0]));
  }

  @TLAPlusOperator(identifier = "MatchEnd", module = "ValueNodes", warn = false)
  public static Value matchEnd(final Value s, final Value i) {
    String x = str(s);
    int j = num(i);
    char o = x.charAt(j - 1);
    char c = o == '(' ? ')' : o == '{' ? '}' : ']';
    int lev = 0;
    while (j <= x.length()) {
      char y = x.charAt(j - 1);
      if (y == '\\') j++;
      else if (y == c) {
        if (lev <= 1) return IntValue.gen(j + 1);
        lev--;
      } else if (y == o) lev++;
      j++;
    }
    return IntValue.gen(0);
  }

  @TLAPlusOperator(identifier = "CountBrackets", module = "ValueNodes", warn = false)
  public static Value countBrackets(final Value s) {
    String x = str(s);
    int b = 0, p = 0, i = 0, n = x.length();
    while (i < n) {
      char c = x.charAt(i);
      if ((c == '\\' || c == '%') && i + 1 < n) {
        char d = x.charAt(i + 1);
        if (c == '%' && d == '{') b++;
        if (c == '%' && d == '(') p++;
        i += 2;
        continue;
      }
      if (c == '{' && b > 0) b++;
      else if (c == '}' && b > 0) b--;
      else if (c == '(' && p > 0) p++;
      else if (c == ')' && p > 0) p--;
      i++;
    }
    return new TupleValue(IntValue.gen(b), IntValue.gen(p));
  }
}
