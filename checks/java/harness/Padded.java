package harness;

import java.io.IOException;

import zserio.runtime.SizeOf;
import zserio.runtime.array.Array;
import zserio.runtime.array.ArrayTraits;
import zserio.runtime.array.ElementFactory;
import zserio.runtime.array.RawArray;
import zserio.runtime.io.BitStreamReader;
import zserio.runtime.io.BitStreamWriter;
import zserio.runtime.io.Writer;

/** Object whose size depends on the bit position: 5 bits, padding up to a byte boundary, 3 bits. */
public final class Padded implements Writer, SizeOf
{
    public Padded(int head, int tail)
    {
        this.head = head;
        this.tail = tail;
    }

    public int bitSizeOf()
    {
        return bitSizeOf(0);
    }

    public int bitSizeOf(long bitPosition)
    {
        return (int)(initializeOffsets(bitPosition) - bitPosition);
    }

    public long initializeOffsets()
    {
        return initializeOffsets(0);
    }

    public long initializeOffsets(long bitPosition)
    {
        return (bitPosition + 5 + 7) / 8 * 8 + 3;
    }

    public void write(BitStreamWriter out) throws IOException
    {
        out.writeBits(head, 5);
        out.alignTo(8);
        out.writeBits(tail, 3);
    }

    @Override
    public boolean equals(Object other)
    {
        return other instanceof Padded && ((Padded)other).head == head && ((Padded)other).tail == tail;
    }

    @Override
    public int hashCode()
    {
        return 8 * head + tail;
    }

    public int getHead()
    {
        return head;
    }

    public int getTail()
    {
        return tail;
    }

    public int getIndex()
    {
        return index;
    }

    public static final class Factory implements ElementFactory<Padded>
    {
        public Padded create(BitStreamReader in, int index) throws IOException
        {
            final int head = (int)in.readBits(5);
            in.alignTo(8);
            final Padded result = new Padded(head, (int)in.readBits(3));
            result.index = index;
            return result;
        }
    }

    public static ArrayTraits traits()
    {
        return new ArrayTraits.WriteObjectArrayTraits<Padded>(new Factory());
    }

    public static RawArray raw(Padded[] items)
    {
        return new RawArray.ObjectRawArray<Padded>(Padded.class, items);
    }

    public static RawArray empty()
    {
        return new RawArray.ObjectRawArray<Padded>(Padded.class);
    }

    private final int head;
    private final int tail;
    private int index = -1;
}
