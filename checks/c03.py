import queuegen


def check(ck):
    queuegen.check(ck, 1)
