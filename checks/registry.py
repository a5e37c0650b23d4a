"""Which module checks which property."""


def check(prop):
    if prop[0] == "R":
        import p_routing
        return p_routing.check(prop)
    if prop in ("B01", "B03", "B04"):
        import p_data
        return p_data.check(prop)
    if prop[0] == "P" or prop == "B02":
        import p_server
        return p_server.check(prop)
    if prop[0] == "S":
        import p_response
        return p_response.check(prop)
    if prop[0] == "F":
        import p_static
        return p_static.check(prop)
    raise SystemExit(2)
