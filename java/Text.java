/* TLC evaluation of the operators declared in spec/Text.tla. */
import tlc2.value.impl.*;

public class Text {
    static String s(Value v) {
        if (v instanceof StringValue) return ((StringValue) v).val.toString();
        throw new RuntimeException("not a string: " + v);
    }
    // code-point order
    public static Value StrLess(Value a, Value b) {
        int[] x = s(a).codePoints().toArray(), y = s(b).codePoints().toArray();
        for (int i = 0; i < x.length && i < y.length; i++)
            if (x[i] != y[i]) return x[i] < y[i] ? BoolValue.ValTrue : BoolValue.ValFalse;
        return x.length < y.length ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    public static Value StrContains(Value a, Value b) { return s(a).contains(s(b)) ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value StrPrefix(Value a, Value b) { return s(b).startsWith(s(a)) ? BoolValue.ValTrue : BoolValue.ValFalse; }
}
