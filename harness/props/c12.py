from props import large, sdatlib
TRACE = 'SdatTrace'


def run(ctx):
    sdatlib.run(ctx, True)
    large.run(ctx, large.Sdat)
