"""A module in a package."""
far = [2]


class Far:
    class Away:
        class Beyond:
            pass
