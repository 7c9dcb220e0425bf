import java.io.BufferedReader;
import java.io.InputStreamReader;
import java.lang.invoke.MethodType;
import java.lang.reflect.Array;
import java.lang.reflect.Constructor;
import java.lang.reflect.Field;
import java.lang.reflect.InvocationTargetException;
import java.lang.reflect.Method;
import java.math.BigInteger;
import java.nio.charset.StandardCharsets;
import java.util.ArrayList;
import java.util.List;

/** Executes calls given line by line on the real classes. */
public final class Bridge
{
    private static final List<Object> OBJECTS = new ArrayList<>();

    public static void main(String[] args) throws Exception
    {
        final BufferedReader in = new BufferedReader(new InputStreamReader(System.in, StandardCharsets.US_ASCII));
        String line;
        while ((line = in.readLine()) != null)
        {
            String answer;
            try
            {
                answer = "R" + execute(line.split(" ", -1));
            }
            catch (InvocationTargetException e)
            {
                answer = "X" + e.getCause().getClass().getName() + " " + hex(String.valueOf(e.getCause().getMessage()));
            }
            catch (Throwable e)
            {
                answer = "E" + hex(e.toString());
            }
            System.out.println(answer);
            System.out.flush();
        }
    }

    private static String execute(String[] t) throws Throwable
    {
        final ClassLoader loader = Bridge.class.getClassLoader();
        if (t[0].equals("reset"))
        {
            OBJECTS.clear();
            return "N";
        }
        if (t[0].equals("getstatic"))
        {
            final Field field = Class.forName(t[1]).getDeclaredField(t[2]);
            field.setAccessible(true);
            return encode(field.get(null));
        }
        final boolean isStatic = !t[0].equals("call");
        final int first = t[0].equals("new") ? 3 : 4;
        final String desc = t[first - 1];
        final MethodType type = MethodType.fromMethodDescriptorString(desc, loader);
        final Object[] values = new Object[t.length - first];
        for (int i = 0; i < values.length; ++i)
            values[i] = decode(t[first + i]);
        if (t[0].equals("new"))
        {
            final Constructor<?> constructor = Class.forName(t[1]).getDeclaredConstructor(type.parameterArray());
            constructor.setAccessible(true);
            return encode(constructor.newInstance(values));
        }
        final Object receiver = isStatic ? null : decode(t[1]);
        Class<?> cls = isStatic ? Class.forName(t[1]) : receiver.getClass();
        final Method method = find(cls, t[2], type);
        method.setAccessible(true);
        return encode(method.invoke(receiver, values));
    }

    private static Method find(Class<?> start, String name, MethodType type) throws NoSuchMethodException
    {
        for (Class<?> cls = start; cls != null; cls = cls.getSuperclass())
        {
            for (Method method : cls.getDeclaredMethods())
            {
                if (method.getName().equals(name) && java.util.Arrays.equals(method.getParameterTypes(), type.parameterArray()) &&
                        method.getReturnType() == type.returnType())
                    return method;
            }
        }
        return start.getMethod(name, type.parameterArray());
    }

    private static Object decode(String t) throws Exception
    {
        final String p = t.substring(1);
        switch (t.charAt(0))
        {
        case 'N':
            return null;
        case 'I':
            return Integer.valueOf(p);
        case 'J':
            return Long.valueOf(p);
        case 'S':
            return Short.valueOf(p);
        case 'B':
            return Byte.valueOf(p);
        case 'C':
            return Character.valueOf((char)Integer.parseInt(p));
        case 'Z':
            return p.equals("1");
        case 'F':
            return Float.intBitsToFloat((int)Long.parseLong(p));
        case 'D':
            return Double.longBitsToDouble(new BigInteger(p).longValue());
        case 'G':
            return new BigInteger(p);
        case 'T':
            return unhex(p);
        case 'O':
            return OBJECTS.get(Integer.parseInt(p));
        default:
            // array: A<class>|item|item
            final String[] parts = p.split("\\|", -1);
            final Class<?> kind = type(parts[0]);
            final Object array = Array.newInstance(kind, parts.length - 1);
            for (int i = 1; i < parts.length; ++i)
                Array.set(array, i - 1, decode(parts[i].replace('!', '|'))); // at most two dimensions
            return array;
        }
    }

    private static Class<?> type(String desc) throws Exception
    {
        return MethodType.fromMethodDescriptorString("(" + desc + ")V", Bridge.class.getClassLoader()).parameterType(0);
    }

    private static String encode(Object v)
    {
        if (v == null)
            return "N";
        if (v instanceof Integer)
            return "I" + v;
        if (v instanceof Long)
            return "J" + v;
        if (v instanceof Short)
            return "S" + v;
        if (v instanceof Byte)
            return "B" + v;
        if (v instanceof Character)
            return "C" + (int)((Character)v);
        if (v instanceof Boolean)
            return "Z" + (((Boolean)v) ? 1 : 0);
        if (v instanceof Float)
            return "F" + (Float.floatToRawIntBits((Float)v) & 0xFFFFFFFFL);
        if (v instanceof Double)
            return "D" + Long.toUnsignedString(Double.doubleToRawLongBits((Double)v));
        if (v instanceof BigInteger)
            return "G" + v;
        if (v instanceof String)
            return "T" + hex((String)v);
        if (v.getClass().isArray())
        {
            final StringBuilder out = new StringBuilder("A");
            for (int i = 0; i < Array.getLength(v); ++i)
                out.append('|').append(encode(Array.get(v, i)).replace('|', '!'));
            return out.toString();
        }
        OBJECTS.add(v);
        return "O" + (OBJECTS.size() - 1) + ":" + v.getClass().getName();
    }

    private static String hex(String text)
    {
        final StringBuilder out = new StringBuilder();
        for (char c : text.toCharArray())
            out.append(String.format("%04x", (int)c));
        return out.toString();
    }

    private static String unhex(String text)
    {
        final StringBuilder out = new StringBuilder();
        for (int i = 0; i < text.length(); i += 4)
            out.append((char)Integer.parseInt(text.substring(i, i + 4), 16));
        return out.toString();
    }
}
