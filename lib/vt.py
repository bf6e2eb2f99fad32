"""What a terminal shows after some output: the part of a terminal that the program uses."""
import re

SGR = re.compile(r"\x1b\[[0-9;]*m")
TOKEN = re.compile(r"\x1b\[[0-9;?]*[A-Za-z]|\r|\n|[^\x1b\r\n]+|\x1b")


def plain(text):
    return SGR.sub("", text)


def screen(text, cols=80):
    """Lines left on a terminal with unlimited scrollback; the tty's output processing is off, so that a newline is taken as carriage return and line feed."""
    lines, row, col, wrap = [""], 0, 0, True
    for t in TOKEN.findall(text):
        if t == "\n":
            row, col = row + 1, 0
            if row == len(lines):
                lines.append("")
        elif t == "\r":
            col = 0
        elif t.startswith("\x1b["):
            arg, op = t[2:-1], t[-1]
            n = int(arg) if arg.isdigit() else None
            if op == "m":
                pass
            elif op == "F":
                row, col = max(0, row - (n or 1)), 0
            elif op == "A":
                row = max(0, row - (n or 1))
            elif op == "G":
                col = (n or 1) - 1
            elif op == "J" and n in (0, None):
                lines[row] = lines[row][:col]
                del lines[row + 1:]
            elif op == "K":
                lines[row] = "" if n == 2 else lines[row][:col]
            elif arg == "?7":
                wrap = op == "h"
            else:
                raise ValueError("unknown control %r" % t)
        elif t != "\x1b":
            cur = lines[row].ljust(col)
            lines[row] = cur[:col] + t + cur[col + len(t):]
            col += len(t)
            if not wrap and col > cols:      # cut at the edge
                lines[row], col = lines[row][:cols], cols
    return lines
