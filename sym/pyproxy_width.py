"""Width of the bit-vector variable used for an integer input."""


def input_width(low, high):
    """(width, signed) of the input variable for the range [low, high]."""
    if low >= 0:
        return max(1, high.bit_length()), False
    return max(high.bit_length(), (-low - 1).bit_length()) + 1, True
