"""Stand-in for argparse: the verifier models add_argument/parse_args (see Ex.argparse_call); the attributes of Namespace follow
the declared options."""


class ArgumentParser:
    pass


class Namespace:
    pass
