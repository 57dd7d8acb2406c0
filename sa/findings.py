"""The committed list of genuine defects that are recorded instead of repaired.

KNOWN-FINDING: property=<id> scenario=<name> match=<text> | <what fails>
fixed: property=<id> <commit> <what failed>

A finding is suppressed only by a KNOWN-FINDING line of the same property whose
scenario is the same and whose text occurs in the finding's message or construct.
"fixed:" lines suppress nothing."""

import re

LINE = re.compile(r'KNOWN-FINDING: property=(\S+) scenario=(\S+) match=(.*?) \| (.*)')


def load(path, prop):
    listed = []
    try:
        with open(path, encoding='utf-8') as f:
            for line in f:
                m = LINE.match(line.strip())
                if m and m.group(1) == prop:
                    listed.append((m.group(2), m.group(3), m.group(4)))
    except FileNotFoundError:
        pass
    return listed


def match(listed, scenario, message, construct, inputs):
    for name, text, what in listed:
        if name == scenario and text and (text in message or text in construct):
            return what
    return None
