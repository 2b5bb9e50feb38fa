"""Concrete tree models used to replay counterexamples and to run the bounded checks on the real code."""
import os
from django.db import models
from treebeard.al_tree import AL_Node
from treebeard.mp_tree import MP_Node
from treebeard.ns_tree import NS_Node


class D(models.Model):
    desc = models.CharField(max_length=64, default="")
    class Meta:
        abstract = True


class V(D):
    val1 = models.IntegerField(default=0)
    val2 = models.IntegerField(default=0)
    class Meta:
        abstract = True


ORDER = ["val1", "-val2"]


class Tag(models.Model):
    name = models.CharField(max_length=20)


class MPPlain(MP_Node, D):
    steplen = 2


class MPOne(MP_Node, D):
    steplen = 1
    alphabet = "0123456789"
MPOne._meta.get_field("path").max_length = 5


class MPBig(MP_Node, D):
    tags = models.ManyToManyField(Tag)


class MPTri(MP_Node, D):
    """tiny alphabet and two-character steps: carries happen after three siblings"""
    steplen = 2
    alphabet = "abc"


class MPSorted(MP_Node, V):
    steplen = 2
    node_order_by = ORDER


class MPSortedOne(MP_Node, V):
    steplen = 1
    alphabet = "0123456789"
    node_order_by = ORDER
MPSortedOne._meta.get_field("path").max_length = 5


class MPInh(MPPlain):
    extra = models.CharField(max_length=10, default="x")


class MPSortedInh(MPSorted):
    extra = models.CharField(max_length=10, default="x")


class MPProxy(MPPlain):
    class Meta:
        proxy = True


class MPUuid(MP_Node, D):
    import uuid
    steplen = 2
    key = models.CharField(max_length=12, primary_key=True)


class NSPlain(NS_Node, D): ...


class NSSorted(NS_Node, V):
    node_order_by = ORDER


class NSInh(NSPlain):
    extra = models.CharField(max_length=10, default="x")


class NSSortedInh(NSSorted):
    extra = models.CharField(max_length=10, default="x")


class NSProxy(NSPlain):
    class Meta:
        proxy = True


class NSTag(NS_Node, D):
    tags = models.ManyToManyField(Tag)


class ALPlain(AL_Node, D):
    parent = models.ForeignKey("self", related_name="children_set", null=True, db_index=True, on_delete=models.CASCADE)
    sib_order = models.PositiveIntegerField()


class ALSorted(AL_Node, V):
    node_order_by = ORDER
    parent = models.ForeignKey("self", related_name="children_set", null=True, db_index=True, on_delete=models.CASCADE)


class ALInh(ALPlain):
    extra = models.CharField(max_length=10, default="x")


class ALProxy(ALPlain):
    class Meta:
        proxy = True


class ALTag(AL_Node, D):
    parent = models.ForeignKey("self", related_name="children_set", null=True, db_index=True, on_delete=models.CASCADE)
    sib_order = models.PositiveIntegerField()
    tags = models.ManyToManyField(Tag)


class MPDep(models.Model):
    node = models.ForeignKey(MPPlain, on_delete=models.CASCADE)


class MPProtect(models.Model):
    node = models.ForeignKey(MPPlain, on_delete=models.PROTECT)


class NSDep(models.Model):
    node = models.ForeignKey(NSPlain, on_delete=models.CASCADE)


class NSProtect(models.Model):
    node = models.ForeignKey(NSPlain, on_delete=models.PROTECT)


class ALProtect(models.Model):
    node = models.ForeignKey(ALPlain, on_delete=models.PROTECT)


if os.environ.get("RT_ENGINE") == "psql":
    from treebeard.ltree import LT_Node

    class LTPlain(LT_Node, D): ...

    class LTSorted(LT_Node, V):
        node_order_by = ORDER

    class LTInh(LTPlain):
        extra = models.CharField(max_length=10, default="x")
        class Meta:
            constraints = []

    class LTProxy(LTPlain):
        class Meta:
            proxy = True
            constraints = []

    class LTTag(LT_Node, D):
        tags = models.ManyToManyField(Tag)

    class LTProtect(models.Model):
        node = models.ForeignKey(LTPlain, on_delete=models.PROTECT)
