NA = {}      # property -> reason
NOTE = {}    # property -> extra note
