"""Calendar dates (C16)."""


def run(ctx):
    big = ctx.thorough
    ctx.assumptions += ["datetimes are asked for from 15 October 1582 on: datetime only knows the Gregorian calendar"]
    ctx.model_check("CalendarMC", "CalendarBigMC" if big else None, workers=8)
    lists = ctx.generate("CalendarGen", 100000 if big else 8000, 3, ctx.seed)
    traces = ctx.drive("calendar_", {"seed": ctx.seed, "lists": lists})
    ctx.validate("CalendarTrace", traces, workers=8)
