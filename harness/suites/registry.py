"""Which suite decides which property."""
SUITE = {}
for _suite, _props in {
        "sched": "C01 C02 C03 C06 C07 C08 C09",
        "alns": "C04 C05",
        "windows": "C10",
        "collection": "C11",
        "units": "C12 C13 C14 C15",
        "calendar": "C16",
        "clocks": "C17 C18",
        "frames": "C19 C20 C21 C22 C23 C24",
        "validation": "C25",
        "series": "C28",
        "display": "C29",
        "text": "C26 C27"}.items():
    for _p in _props.split():
        SUITE[_p] = _suite
