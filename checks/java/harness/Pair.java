package harness;

import java.io.IOException;

import zserio.runtime.PackableSizeOf;
import zserio.runtime.array.ArrayElement;
import zserio.runtime.array.ArrayTraits;
import zserio.runtime.array.DeltaContext;
import zserio.runtime.array.PackableElementFactory;
import zserio.runtime.array.PackingContext;
import zserio.runtime.array.RawArray;
import zserio.runtime.io.BitStreamReader;
import zserio.runtime.io.BitStreamWriter;
import zserio.runtime.io.PackableWriter;

/** Object with packed fields a (int:13), c (varuint16) and the unpacked field b (bit:3), as generated code does it. */
public final class Pair implements PackableWriter, PackableSizeOf
{
    public Pair(short a, byte b, short c)
    {
        this.a = a;
        this.b = b;
        this.c = c;
    }

    public static final class Context extends PackingContext
    {
        final DeltaContext first = new DeltaContext();
        final DeltaContext second = new DeltaContext();
    }

    public static final class Factory implements PackableElementFactory<Pair>
    {
        public PackingContext createPackingContext()
        {
            return new Context();
        }

        public Pair create(BitStreamReader in, int index) throws IOException
        {
            throw new IOException("unpacked");
        }

        public Pair create(PackingContext context, BitStreamReader in, int index) throws IOException
        {
            final Context ctx = context.cast();
            final short a = ((ArrayElement.ShortArrayElement)ctx.first.read(A, in)).get();
            final byte b = (byte)in.readBits(3);
            final short c = ((ArrayElement.ShortArrayElement)ctx.second.read(C, in)).get();
            final Pair result = new Pair(a, b, c);
            result.index = index;
            return result;
        }
    }

    public void initPackingContext(PackingContext context)
    {
        final Context ctx = context.cast();
        ctx.first.init(A, new ArrayElement.ShortArrayElement(a));
        ctx.second.init(C, new ArrayElement.ShortArrayElement(c));
    }

    public int bitSizeOf()
    {
        return 0;
    }

    public int bitSizeOf(long bitPosition)
    {
        return 0;
    }

    public int bitSizeOf(PackingContext context, long bitPosition)
    {
        final Context ctx = context.cast();
        return ctx.first.bitSizeOf(A, new ArrayElement.ShortArrayElement(a)) + 3 +
                ctx.second.bitSizeOf(C, new ArrayElement.ShortArrayElement(c));
    }

    public long initializeOffsets()
    {
        return 0;
    }

    public long initializeOffsets(long bitPosition)
    {
        return bitPosition;
    }

    public long initializeOffsets(PackingContext context, long bitPosition)
    {
        return bitPosition + bitSizeOf(context, bitPosition);
    }

    public void write(BitStreamWriter out) throws IOException
    {
        throw new IOException("unpacked");
    }

    public void write(PackingContext context, BitStreamWriter out) throws IOException
    {
        final Context ctx = context.cast();
        ctx.first.write(A, out, new ArrayElement.ShortArrayElement(a));
        out.writeBits(b, 3);
        ctx.second.write(C, out, new ArrayElement.ShortArrayElement(c));
    }

    public short getA()
    {
        return a;
    }

    public byte getB()
    {
        return b;
    }

    public short getC()
    {
        return c;
    }

    public int getIndex()
    {
        return index;
    }

    public static ArrayTraits traits()
    {
        return new ArrayTraits.WritePackableObjectArrayTraits<Pair>(new Factory());
    }

    public static RawArray raw(Pair[] items)
    {
        return new RawArray.ObjectRawArray<Pair>(Pair.class, items);
    }

    public static RawArray empty()
    {
        return new RawArray.ObjectRawArray<Pair>(Pair.class);
    }

    private static final ArrayTraits.SignedBitFieldShortArrayTraits A =
            new ArrayTraits.SignedBitFieldShortArrayTraits(13);
    private static final ArrayTraits.VarUInt16ArrayTraits C = new ArrayTraits.VarUInt16ArrayTraits();

    private final short a;
    private final byte b;
    private final short c;
    private int index = -1;
}
