"""A tiny module to look names up in."""


class Thing:
    part = 5


class Outer:
    class Inner:
        part = 6

        class Core:
            class Seed:
                class Germ:
                    pass


value = [1]
