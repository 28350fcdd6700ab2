from props import large, sdatlib
TRACE = 'SdatTrace'


def run(ctx):
    sdatlib.run(ctx, False)
    large.run(ctx, large.Sdat)
