"""Specification of the line format (property C02)."""
import re


def row_of(line):
    """The name before the first colon, and the parts of the rest between pipes that are not escaped."""
    if line.startswith('===='):
        line = 'Section:' + line.lstrip('=')
    if ':' not in line:
        return [line.strip()]
    name, rest = line.split(':', 1)
    return [name.strip()] + [c.replace('\\|', '|') for c in re.split(r'(?<!\\)\|', rest.strip())]


def sp_rows(self):
    """One row for each line that is not a comment, in order."""
    return [row_of(line) for line in self._text_lines if not line.lstrip().startswith('#')]
